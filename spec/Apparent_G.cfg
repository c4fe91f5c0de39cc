INIT GInit
NEXT GNext
INVARIANTS StaysUnit TurnsForward Undone
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
