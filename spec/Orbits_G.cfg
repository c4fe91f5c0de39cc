CONSTANT Nodes = {1, 2, 3, 4}
INIT GInit
NEXT GNext
INVARIANTS OnEllipse Upright
VIEW GView
ACTION_CONSTRAINT GEmit
CHECK_DEADLOCK FALSE
