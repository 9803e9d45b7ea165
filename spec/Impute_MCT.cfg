SPECIFICATION Spec
CONSTANTS
  Values = {1, 2, 5}
  NRows = 3
  NCols = 2
  Marker = 99
  Unit = 12
  Ks = {1, 2}
INVARIANTS PresentKept Complete Within
PROPERTY Ends
CHECK_DEADLOCK FALSE
