SPECIFICATION Spec
INVARIANTS ReadsWhatIsMeant SavedIsLoaded Printed
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLines = 4
  Every = 7
