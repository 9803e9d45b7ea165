SPECIFICATION GenSpec
CONSTANTS
  Classes = {"SA", "BatchSA", "Bootstrap", "Displacement", "BSDISP", "ConstrainedModel", "Simulator"}
  Names = {"a", "b"}
  Dirs = {"missing", "relative"}
  Hows = {"truncate", "empty", "garbage", "foreign", "text"}
  MaxOps = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
