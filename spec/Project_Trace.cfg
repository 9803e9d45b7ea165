SPECIFICATION TSpec
CONSTANTS
  Names = {1, 2}
  RN = 3
  EN = 3
  CN = 2
  Simulated = FALSE
  Tab = {}
  MaxOps = 0
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
