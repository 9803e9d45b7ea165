SPECIFICATION Spec
CONSTANTS
  K = 2
  N = 2
  SwapSets <- All
INVARIANT Independent
CHECK_DEADLOCK FALSE
