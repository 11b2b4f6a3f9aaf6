SPECIFICATION Spec
INVARIANTS Resolves Histories
CHECK_DEADLOCK FALSE
CONSTANTS
  Every = 2
  Cut = 2
