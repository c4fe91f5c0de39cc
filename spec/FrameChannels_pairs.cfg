CONSTANTS Chan = {"power", "response", "direct"}
          MaxW = 1
INIT Init
NEXT Next
INVARIANTS NothingInDisabled ClearedTogether
PROPERTY Independent
VIEW View
ACTION_CONSTRAINT Emit
