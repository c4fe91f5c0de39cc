CONSTANTS Max = 24 Simple = {"light", "unres"} Parts = {"geom", "model"} Scenes = {1}
INIT Init
NEXT Next
INVARIANTS Tree NoDangling Roots SimEmit
CHECK_DEADLOCK FALSE
