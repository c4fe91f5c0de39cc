INIT GInit
NEXT GNext
INVARIANT OnBoth
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
