SPECIFICATION TSpec
CONSTANTS
  Prepare = TRUE
  MaxDim = 1
  Orders = {"C"}
  QVals = {0}
  Deltas = {0}
  MaxIters = {1}
  WinSizes = {1}
  MaxCalls = 1
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
