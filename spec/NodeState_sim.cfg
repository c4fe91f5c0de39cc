CONSTANTS Max = 6 Vals = 3 Parts = {"add", "both", "callbacks", "motion", "manual", "scale"} Far = TRUE
INIT Init
NEXT Next
INVARIANTS Hangs RootStays Both Rigid Ephemeris SimEmit
CHECK_DEADLOCK FALSE
