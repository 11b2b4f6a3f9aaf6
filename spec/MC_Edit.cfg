SPECIFICATION Spec
INVARIANTS IsWhatHistorySays Agree
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 3
  Every = 11
  Modes = {"plain"}
