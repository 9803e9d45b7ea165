SPECIFICATION Spec
CONSTANTS
  QVals = {0, 1, 2, 4}
  Deltas = {0, 1, 2, 3}
  MaxIters = {1, 3, 5, 6}
  WinSizes = {1, 2, 3, 4}
INVARIANT Emit
CHECK_DEADLOCK FALSE
