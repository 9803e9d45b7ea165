SPECIFICATION TSpec
CONSTANTS
  K = 1
  N = 1
  Vals = {1}
  MaxOps = 1
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
