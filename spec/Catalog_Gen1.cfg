SPECIFICATION GenSpec
CONSTANTS
  Kinds = {1, 2}
  MaxOps = 2
  Indices = {0, 1}
  Thr = 3
  Lower = TRUE
  Losses = {2, 4}
INVARIANT Emit
CHECK_DEADLOCK FALSE
