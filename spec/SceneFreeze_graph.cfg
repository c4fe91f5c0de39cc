CONSTANTS Max = 3
          Slots = {1}
          Parts = {"end"}
INIT Init
NEXT Next
INVARIANTS TypeOK SeeEmit
PROPERTIES Frozen ViewsChangeNothing Shown
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
