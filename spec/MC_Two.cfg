CONSTANTS
  Depth = 3
  Every = 1
SPECIFICATION Spec
INVARIANTS Independent Snapshots Histories
CHECK_DEADLOCK FALSE
