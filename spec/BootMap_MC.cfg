SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1}
  Feat = 3
  K = 2
  Runs = 2
  Thr = 60
INVARIANTS Conserved PercentilesOrdered SelfMaps
CHECK_DEADLOCK FALSE
