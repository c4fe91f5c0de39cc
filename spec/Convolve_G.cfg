INIT GInit
NEXT GNext
PROPERTIES KeepsShape
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
