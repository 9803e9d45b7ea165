SPECIFICATION TSpec
CONSTANTS
  M = 1
  Kn = 1
  N = 1
  Feats = {1}
  Acv = {1}
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
