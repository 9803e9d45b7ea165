SPECIFICATION TSpec
CONSTANTS
  Kinds = {1, 2, 3}
  MaxOps = 2
  Indices = {0, 2}
  Thr = 3
  Lower = TRUE
  Losses = {2, 4}
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
