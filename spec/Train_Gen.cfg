SPECIFICATION Spec
CONSTANTS
  QVals = {0, 1, 3}
  Deltas = {0, 1, 2}
  MaxIters = {1, 2, 4}
  WinSizes = {1, 2, 3}
INVARIANT Emit
CHECK_DEADLOCK FALSE
