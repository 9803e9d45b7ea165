SPECIFICATION TSpec
CONSTANTS
  M = 1
  N = 1
  K = 1
  MaxEdits = 0
  ReqTypes = {}
  Exprs = {}
  Indices = {}
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
