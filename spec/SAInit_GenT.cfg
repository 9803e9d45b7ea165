SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
