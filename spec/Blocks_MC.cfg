SPECIFICATION Spec
CONSTANTS M = 3
Kn = 2
N = 12
Feats = {1, 2}
Acv = {0, 1, 2}
INVARIANTS Usable HorizonExists NothingMissed Independent
PROPERTIES Within
CHECK_DEADLOCK FALSE
