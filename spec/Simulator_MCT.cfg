SPECIFICATION Spec
CONSTANTS
  F = 3
  MaxOps = 5
  Curves = {"uniform", "increasing", "decreasing", "logistic", "periodic"}
INVARIANTS TypeOK Recalculated Distinct
PROPERTIES OnlyNamed ProfilesByRequest FromOneState GivenKept
CHECK_DEADLOCK FALSE
