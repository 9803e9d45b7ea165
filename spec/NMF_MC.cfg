SPECIFICATION Spec
CONSTANTS
  S = 256
  VVals = {1, 3}
  WeVals = {1, 4}
  FVals = {0, 1, 2}
  Delays = {0, 1, 2}
  Steps = 4
INVARIANTS NonNegative HeldRule
PROPERTIES LossNeverIncreases ZerosStay
CHECK_DEADLOCK FALSE
