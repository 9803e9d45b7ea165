SPECIFICATION GenSpec
CONSTANTS
  F = 2
  MaxOps = 16
INVARIANT Emit
CHECK_DEADLOCK FALSE
