SPECIFICATION GenSpec
CONSTANTS
  Names = {1, 2}
  RN = 3
  EN = 3
  CN = 2
  Simulated = TRUE
  Tab <- GTab
  MaxOps = 18
INVARIANT Emit
CHECK_DEADLOCK FALSE
