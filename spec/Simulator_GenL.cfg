SPECIFICATION GenSpec
CONSTANTS
  F = 3
  MaxOps = 7
  Curves = {"uniform", "increasing", "decreasing", "logistic", "periodic"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
