CONSTANTS Max = 16 Simple = {"light", "unres"} Parts = {"geom", "model", "end"} Scenes = {1, 2}
INIT Init
NEXT Next
INVARIANTS Tree NoDangling Roots SimEmit
CHECK_DEADLOCK FALSE
