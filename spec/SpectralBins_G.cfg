INIT GInit
NEXT GNext
INVARIANTS SpreadsTotal BandsAdd RefineSame
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
