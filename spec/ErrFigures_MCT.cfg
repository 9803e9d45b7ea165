SPECIFICATION Spec
CONSTANTS
  F = 2
  MaxOps = 5
INVARIANTS Exists Present AsAsked
PROPERTIES ReadOnly
CHECK_DEADLOCK FALSE
