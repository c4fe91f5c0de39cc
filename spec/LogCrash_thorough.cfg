INIT Init
NEXT Next
CONSTANTS
  Caps = {20, 60}
  Bursts = {1, 3, 25}
  MaxMsgs = 30
  MaxScopes = 2
VIEW View
INVARIANTS AtMostOnce SilentWhenOff EndsByCause Complete
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
