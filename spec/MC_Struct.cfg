CONSTANTS
  Part = "map"
  Every = 7
SPECIFICATION Spec
INVARIANTS Maps1 Refls1 Histories
CHECK_DEADLOCK FALSE
