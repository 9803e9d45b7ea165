SPECIFICATION Spec
CONSTANTS
  F = 2
  MaxOps = 4
INVARIANTS Exists Present AsAsked
PROPERTIES ReadOnly
CHECK_DEADLOCK FALSE
