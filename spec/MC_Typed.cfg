SPECIFICATION Spec
INVARIANTS Denotes Defaults Histories
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 40
  Every = 3
