SPECIFICATION Spec
CONSTANTS
  M = 2
  N = 1
  K = 1
  MaxEdits = 4
  ReqTypes = {"pull down", "set to zero", "bogus"}
  Exprs = {"e1", "e2"}
  Indices = {0, 1, 2}
INVARIANT Sane
PROPERTY FirstKept
VIEW View
CHECK_DEADLOCK FALSE
