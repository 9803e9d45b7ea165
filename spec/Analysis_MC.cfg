SPECIFICATION Spec
CONSTANTS
  M = 2
  F = 2
  N = 2
  MaxOps = 3
  Kinds = {"factor", "feature", "all"}
  Estimates = {"feature"}
INVARIANTS Current Refused
PROPERTIES ReadOnly
CHECK_DEADLOCK FALSE
