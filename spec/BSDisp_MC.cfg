SPECIFICATION Spec
CONSTANTS
  MaxR = 3
  Vals = {0, 1, 2}
INVARIANTS Exact Enclosed
CHECK_DEADLOCK FALSE
