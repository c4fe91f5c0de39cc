CONSTANTS Kinds = {"light"} Silent = {} Parts = {} Requests = {"", "a", "a_1", "D3"} Max = 3 Live = 3
INIT Init
NEXT Next
INVARIANTS Unique NonEmpty
PROPERTIES OthersKeep Granted Idempotent
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
