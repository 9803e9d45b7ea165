SPECIFICATION Spec
CONSTANTS
  Prepare = TRUE
  MaxDim = 3
  Orders = {"C", "F"}
  QVals = {0, 1, 3}
  Deltas = {0, 2}
  MaxIters = {1, 4}
  WinSizes = {0, 1, 2, 3}
  MaxCalls = 2
INVARIANTS SeesTheData ConvergedSound ConvergedFirst Bounded
CHECK_DEADLOCK FALSE
