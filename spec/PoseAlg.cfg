INIT Init
NEXT Next
INVARIANTS Rigid SimEmit
CHECK_DEADLOCK FALSE
