SPECIFICATION TSpec
CONSTANTS
  Vals = {0}
  Feat = 1
  K = 1
  Runs = 1
  Thr = 60
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
