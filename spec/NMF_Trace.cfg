SPECIFICATION TSpec
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
