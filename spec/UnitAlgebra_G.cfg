INIT GInit
NEXT GNext
INVARIANTS DimensionsClosed
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
