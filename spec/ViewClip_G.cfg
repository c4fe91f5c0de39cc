INIT GInit
NEXT GNext
INVARIANTS Consistent
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
