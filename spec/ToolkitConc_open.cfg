CONSTANTS Threads = {1, 2} PerThread = 1 Locked = FALSE
INIT Init
NEXT Next
INVARIANT OwnAnswer
CHECK_DEADLOCK FALSE
