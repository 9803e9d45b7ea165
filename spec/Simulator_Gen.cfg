SPECIFICATION GenSpec
CONSTANTS
  F = 3
  MaxOps = 2
  Curves = {"uniform", "increasing", "decreasing", "logistic", "periodic"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
