SPECIFICATION Spec
INVARIANTS Exact Histories
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLines = 3
  Every = 5
