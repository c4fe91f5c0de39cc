CONSTANTS Parts = {"data", "env", "cd", "dump", "tree"}
INIT Init
NEXT Next
INVARIANTS Sane SimEmit
CHECK_DEADLOCK FALSE
