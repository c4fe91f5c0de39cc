INIT Init
NEXT Next
INVARIANTS Sane NoTrace
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
