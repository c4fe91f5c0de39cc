INIT Init
NEXT Next
CONSTANTS
  Cap0 = 3
  Caps = {0, 1, 2, 3, 4}
  Sevs = {0, 1, 2, 3}
  Bursts = {1, 2, 5}
  K = 7
VIEW View
INVARIANTS TypeOK Window
PROPERTIES Shrinks TailOnly
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
