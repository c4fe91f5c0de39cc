CONSTANTS Tokens = {}
          Mags = {}
          Types = {}
          MaxLen = 1000
          Damages = {}
INIT GInit
NEXT GNext
INVARIANTS TypeOK FileOrdered
PROPERTIES WrittenIsComplete ReadsDoNotWrite
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
