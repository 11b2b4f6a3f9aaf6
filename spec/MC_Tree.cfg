SPECIFICATION Spec
INVARIANT Inherits
CHECK_DEADLOCK FALSE
CONSTANTS
  Every = 3
