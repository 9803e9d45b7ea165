SPECIFICATION Spec
CONSTANTS
  QVals = {0, 1, 2, 3, 5}
  Deltas = {1, 2, 3}
  MaxIters = {1, 2, 3, 4, 5}
  WinSizes = {1, 2, 3, 4}
INVARIANTS WindowIsSuffix ConvergedSound ConvergedFirst Bounded StepsRule NaNStops
PROPERTY Terminates
CHECK_DEADLOCK FALSE
