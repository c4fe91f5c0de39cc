CONSTANTS Threads = {1, 2, 3} PerThread = 2 Locked = TRUE
INIT Init
NEXT Next
INVARIANT OwnAnswer
CHECK_DEADLOCK FALSE
