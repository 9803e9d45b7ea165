SPECIFICATION TSpec
CONSTANTS
  QVals = {0}
  Deltas = {1}
  MaxIters = {1}
  WinSizes = {1}
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
