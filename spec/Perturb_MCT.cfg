SPECIFICATION Spec
CONSTANTS
  Models = 6
  Cells = {1, 2, 3}
  Seeds = {1, 2, 3, 4}
  Mults = 3
  U0 <- MCU
INVARIANTS Aligned OnlySelected OrderFree BaseKept
PROPERTY Completes
CHECK_DEADLOCK FALSE
