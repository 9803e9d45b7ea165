SPECIFICATION Spec
CONSTANTS
  Max = 6
  Sens = 2
  MaxIter = 4
  Types = {"pull down", "pull up", "pull to value", "set to zero", "set to base value", "define limits"}
INVARIANTS CanMove ZeroHeld BaseHeld LimitsHeld LossPerIteration
PROPERTIES WithinLimit NotOvershot
CHECK_DEADLOCK FALSE
