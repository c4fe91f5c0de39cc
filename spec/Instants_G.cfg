CONSTANT Regs = {1, 2, 3, 4}
INIT GInit
NEXT GNext
INVARIANTS ScalesInvert Arithmetic HalvesMeet
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
