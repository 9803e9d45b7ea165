SPECIFICATION GenSpec
CONSTANTS
  M = 3
  F = 3
  N = 4
  MaxOps = 12
  Kinds = {}
  Estimates = {}
INVARIANT Emit
CHECK_DEADLOCK FALSE
