CONSTANTS Max = 2 Vals = 1 Parts = {"add", "both", "callbacks", "motion", "manual"} Far = FALSE
INIT Init
NEXT Next
INVARIANTS Hangs RootStays Both Rigid Ephemeris SeeEmit
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Alone
ACTION_CONSTRAINT Emit
