SPECIFICATION TSpec
CONSTANTS
  NCells = 1
  NSamples = 1
  Lo = 1
  Hi = 1
  Vals = {0}
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
