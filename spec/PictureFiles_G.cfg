CONSTANTS Slots = {1, 2, 3}
    Files = {1, 2, 3, 4, 5, 6}
INIT GInit
NEXT GNext
INVARIANTS Settled Ranges
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
