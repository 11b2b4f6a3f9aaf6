SPECIFICATION Spec
INVARIANT ReadsWhatIsMeant
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLines = 4
  Every = 11
