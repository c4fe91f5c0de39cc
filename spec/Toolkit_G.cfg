INIT GInit
NEXT GNext
INVARIANTS Sane NoTrace
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
