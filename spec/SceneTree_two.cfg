CONSTANTS Max = 5 Simple = {"light"} Parts = {"end"} Scenes = {1, 2}
INIT Init
NEXT Next
INVARIANTS Tree NoDangling Roots
PROPERTIES StayDead OnlyDependents
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
