SPECIFICATION Spec
INVARIANTS SplitsBack Converts Histories
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 2
  MaxPart = 3
  Every = 13
