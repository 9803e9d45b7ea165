SPECIFICATION GenSpec
CONSTANTS
  Kinds = {1, 2, 3, 4}
  MaxOps = 5
  Indices = {0, 1, 2, 4}
  Thr = 3
  Lower = TRUE
  Losses = {2, 3, 4}
INVARIANT Emit
CHECK_DEADLOCK FALSE
