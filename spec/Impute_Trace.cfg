SPECIFICATION TSpec
CONSTANTS
  Values = {1}
  NRows = 1
  NCols = 1
  Marker = 99
  Unit = 840
  Ks = {1}
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
