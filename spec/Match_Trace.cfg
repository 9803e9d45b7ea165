SPECIFICATION TSpec
CONSTANTS
  Vals = {0, 1, 2}
  Feat = 3
  K = 2
  MVals = {0, 1, 2, 3}
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
