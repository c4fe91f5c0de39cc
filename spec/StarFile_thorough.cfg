CONSTANTS Tokens = {1, 2}
          Mags = {1, 2, 4}
          Types = {0, 1}
          MaxLen = 2
          Damages = {}
INIT Init
NEXT Next
INVARIANTS TypeOK FileOrdered LimitIsClip
PROPERTIES WrittenIsComplete ReadsDoNotWrite
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
