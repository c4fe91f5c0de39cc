INIT Init
NEXT Next
CONSTANTS
  Cap0 = 3
  Caps = {0, 1, 2, 3}
  Sevs = {0, 1, 3}
  Bursts = {1, 4}
  K = 7
VIEW View
INVARIANTS TypeOK Window
PROPERTIES Shrinks TailOnly
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
