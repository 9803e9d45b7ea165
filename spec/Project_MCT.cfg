SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  RN = 2
  EN = 3
  CN = 2
  Simulated = FALSE
  Tab <- MCTab
  MaxOps = 7
INVARIANTS FromRuns Kinded OneSimulation Bootstrapped OnlyKnown
PROPERTIES Isolated ReadOnly SimStays
CHECK_DEADLOCK FALSE
