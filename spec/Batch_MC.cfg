SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  LVals = {1, 2}
INVARIANTS Complete BestIsLowest NaNNotSelected FaultReported
PROPERTY Finishes
CHECK_DEADLOCK FALSE
