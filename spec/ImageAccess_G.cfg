CONSTANTS Sizes = {}
          Vals = 0
          Probe = 0
INIT GInit
NEXT GNext
INVARIANTS TypeOK AtCentres
PROPERTIES ReadsDoNotWrite
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
