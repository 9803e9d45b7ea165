SPECIFICATION TSpec
CONSTANT MaxN = 1
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
