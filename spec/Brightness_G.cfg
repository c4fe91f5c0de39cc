INIT GInit
NEXT GNext
INVARIANT Anywhere
INVARIANT AsPoint
INVARIANT AsSurface
INVARIANT Angles
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
