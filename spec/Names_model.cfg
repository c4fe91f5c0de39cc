CONSTANTS Kinds = {"model", "light"} Silent = {} Parts = {"model"}
  Requests = {"", "a", "a_1", "a_2", "a_1_1", "D2", "D5", "D9", "D5_1"} Max = 40 Live = 8
INIT Init
NEXT Next
INVARIANTS Unique NonEmpty SimEmit
CHECK_DEADLOCK FALSE
