SPECIFICATION Spec
INVARIANT SavedIsLoaded
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 2
  Every = 37
