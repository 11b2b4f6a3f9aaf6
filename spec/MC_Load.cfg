SPECIFICATION Spec
INVARIANT ReadsWhatIsMeant
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLines = 3
  Every = 3
