INIT GInit
NEXT GNext
INVARIANTS Whole Agree
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
