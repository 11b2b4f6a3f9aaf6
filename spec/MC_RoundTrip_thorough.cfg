SPECIFICATION Spec
INVARIANT SavedIsLoaded
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 3
  Every = 301
