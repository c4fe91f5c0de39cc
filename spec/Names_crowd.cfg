CONSTANTS Kinds = {"light", "unresolved"} Silent = {} Parts = {}
  Requests = {"", "a"} Max = 24 Live = 24
INIT Init
NEXT Crowd
INVARIANTS Unique NonEmpty SimEmit
CHECK_DEADLOCK FALSE
