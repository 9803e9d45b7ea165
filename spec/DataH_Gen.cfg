SPECIFICATION GSpec
CONSTANTS
  NA <- GNA
  Names <- GNames
  Out = {}
  Values = {}
  NRows = 0
  MaxOps = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
