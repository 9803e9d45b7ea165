SPECIFICATION TSpec
CONSTANT MaxOps = 1
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
