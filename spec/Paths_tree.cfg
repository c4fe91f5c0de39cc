CONSTANTS Parts = {"tree", "cd"}
INIT Init
NEXT Next
INVARIANT Sane
PROPERTIES MakeOnlyAdds DataFree
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
