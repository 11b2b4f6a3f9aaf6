SPECIFICATION Spec
INVARIANTS Merges LaterOrAtOnce Histories
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSrcs = 2
  MaxLines = 2
  Every = 3
