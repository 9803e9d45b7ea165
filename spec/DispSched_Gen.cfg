SPECIFICATION Spec
CONSTANTS
  K = 2
  N = 2
  SwapSets <- One
INVARIANT Emit
CHECK_DEADLOCK FALSE
