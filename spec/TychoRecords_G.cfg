INIT GInit
NEXT GNext
INVARIANTS OnItsOwn NoMoreThanLines
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
