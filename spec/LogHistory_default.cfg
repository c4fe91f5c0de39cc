INIT Init
NEXT Next
CONSTANTS
  Cap0 = 1000
  Caps = {0, 7, 999, 1000, 1001, 1500}
  Sevs = {0, 1, 2, 3}
  Bursts = {1, 400, 999, 1001}
  K = 2000
INVARIANTS TypeOK Window SimEmit
CHECK_DEADLOCK FALSE
