SPECIFICATION TSpec
CONSTANTS
  SVals = {0}
  AVals = {1}
  Cells = 1
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
