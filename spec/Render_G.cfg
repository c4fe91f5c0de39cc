CONSTANTS Views = {1, 2, 3}
    Buffers = {1, 2, 3}
INIT GInit
NEXT GNext
INVARIANT Conserve
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
