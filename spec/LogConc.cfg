INIT Init
NEXT Next
INVARIANTS Bounded Report
CHECK_DEADLOCK FALSE
