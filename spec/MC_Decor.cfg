SPECIFICATION Spec
INVARIANTS TakenOff Histories
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 2
  Every = 11
