CONSTANTS Chan = {"metallic"}
          Pics = {1, 2}
          Facts = {1, 2, 4}
INIT Init
NEXT Next
INVARIANTS ResetIsFresh Visible
PROPERTY Independent
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
