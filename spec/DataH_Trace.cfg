SPECIFICATION TSpec
CONSTANTS
  NA <- NaN
  Names = {}
  Out = {}
  Values = {}
  NRows = 0
  MaxOps = 0
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
