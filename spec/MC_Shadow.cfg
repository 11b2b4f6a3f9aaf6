SPECIFICATION Spec
INVARIANTS KeepsAll Refuses SavedIsLoaded Histories
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 3
  Every = 5
