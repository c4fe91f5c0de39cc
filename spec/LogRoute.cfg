INIT Init
NEXT Next
CONSTANTS
  Sinks = {0, 1, 2, 3}
VIEW View
PROPERTIES ThresholdDecides OnlyTheSinkInPlace Hierarchy ErrorsAlwaysShown
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
