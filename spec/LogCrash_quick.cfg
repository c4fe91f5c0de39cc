INIT Init
NEXT Next
CONSTANTS
  Caps = {20}
  Bursts = {3, 25}
  MaxMsgs = 28
  MaxScopes = 2
VIEW View
INVARIANTS AtMostOnce SilentWhenOff EndsByCause Complete
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
