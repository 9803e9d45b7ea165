SPECIFICATION Spec
CONSTANTS
  M = 3
  N = 2
  K = 2
  MaxEdits = 2
  ReqTypes = {}
  Requests <- GenRequests
  Exprs = {"(1.0*[factor:0|feature:0])-(2.0*[factor:1|feature:1])=0,250", "(0.5*[factor:0|sample:2])-(1.0*[factor:1|sample:0])=0,10"}
  Indices = {}
INVARIANT Emit
CHECK_DEADLOCK FALSE
