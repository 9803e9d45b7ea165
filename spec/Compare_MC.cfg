SPECIFICATION Spec
CONSTANTS K = 2
N = 2
Vals = {1, 2}
MaxOps = 2
INVARIANTS Complete Whole SideBySide
PROPERTIES ReadOnly
CHECK_DEADLOCK FALSE
