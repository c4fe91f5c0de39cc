INIT GInit
NEXT GNext
INVARIANT InParts
INVARIANT BackAgain
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
