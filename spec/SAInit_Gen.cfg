SPECIFICATION Spec
CONSTANT MaxOps = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
