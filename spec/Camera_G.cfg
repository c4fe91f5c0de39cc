INIT GInit
NEXT GNext
INVARIANT Sound
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
