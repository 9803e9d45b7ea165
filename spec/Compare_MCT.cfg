SPECIFICATION Spec
CONSTANTS K = 3
N = 1
Vals = {1, 2}
MaxOps = 2
INVARIANTS Complete Whole SideBySide
PROPERTIES ReadOnly
CHECK_DEADLOCK FALSE
