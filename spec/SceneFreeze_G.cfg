CONSTANTS Max = 1000
          Slots = {1, 2, 3}
          Parts = {}
INIT GInit
NEXT GNext
INVARIANTS TypeOK
PROPERTIES Frozen ViewsChangeNothing Shown
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
