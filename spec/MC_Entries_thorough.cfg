SPECIFICATION Spec
INVARIANTS ReadsWhatIsMeant SavedIsLoaded Printed
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLines = 5
  Every = 31
