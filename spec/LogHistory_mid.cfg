INIT Init
NEXT Next
CONSTANTS
  Cap0 = 5
  Caps = {0, 1, 2, 3, 4, 5, 6, 7, 8, 13}
  Sevs = {0, 1, 2, 3}
  Bursts = {1, 2, 3, 5, 8}
  K = 23
INVARIANTS TypeOK Window SimEmit
CHECK_DEADLOCK FALSE
