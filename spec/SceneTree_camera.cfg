CONSTANTS Max = 10 Simple = {"camera"} Parts = {} Scenes = {1}
INIT Init
NEXT Next
INVARIANTS Tree NoDangling Roots SimEmit
CHECK_DEADLOCK FALSE
