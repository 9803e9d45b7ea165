SPECIFICATION Spec
CONSTANTS M = 4
Kn = 2
N = 40
Feats = {1, 2}
Acv = {0, 1, 2}
INVARIANTS Usable HorizonExists NothingMissed Independent
PROPERTIES Within
CHECK_DEADLOCK FALSE
