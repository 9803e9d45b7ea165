SPECIFICATION TSpec
CONSTANTS
  MaxN = 1
  LVals = {1}
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
