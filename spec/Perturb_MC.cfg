SPECIFICATION Spec
CONSTANTS
  Models = 4
  Cells = {1, 2, 3}
  Seeds = {1, 2, 3, 4, 5}
  Mults = 3
  U0 <- MCU
INVARIANTS Aligned OnlySelected OrderFree BaseKept
PROPERTY Completes
CHECK_DEADLOCK FALSE
