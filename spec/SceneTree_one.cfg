CONSTANTS Max = 6 Simple = {"light"} Parts = {"geom"} Scenes = {1}
INIT Init
NEXT Next
INVARIANTS Tree NoDangling Roots
PROPERTIES StayDead OnlyDependents
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
