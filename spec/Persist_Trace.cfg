SPECIFICATION TSpec
CONSTANTS
  Classes = {}
  Names = {}
  Dirs = {}
  Hows = {}
  MaxOps = 0
INVARIANT Verdicts
CHECK_DEADLOCK FALSE
