CONSTANTS Sensors = {1, 2, 3}
    Buffers = {1, 2, 3}
    Mono = {3}
    MonoBuffers = {3}
INIT GInit
NEXT GNext
INVARIANTS Within Monotone
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
