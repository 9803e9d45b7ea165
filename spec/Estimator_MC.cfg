SPECIFICATION Spec
CONSTANTS
  NCells = 2
  NSamples = 2
  Lo = 1
  Hi = 3
  Vals = {0, 2}
INVARIANTS Partition OrderFree EstimateSampled
PROPERTY Finishes
CHECK_DEADLOCK FALSE
