SPECIFICATION GSpec
CONSTANTS
  NA <- GNA
  Names <- GNames
  Out = {}
  Values = {}
  NRows = 0
  MaxOps = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
