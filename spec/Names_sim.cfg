CONSTANTS Kinds = {"light", "geometry", "primitive", "unresolved"} Silent = {"bsdf", "material", "spectral", "mono", "vec3", "density", "phase", "medium"} Parts = {}
  Requests = {"", "a", "a_1", "a_1_1", "A", "x y", "D2", "D4", "D7", "D4_1"} Max = 14 Live = 6
INIT Init
NEXT Next
INVARIANTS Unique NonEmpty SimEmit
CHECK_DEADLOCK FALSE
