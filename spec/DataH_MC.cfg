SPECIFICATION Spec
CONSTANTS
  NA <- MCNA
  Names <- MCNames
  Out <- MCOut
  Values <- MCValues
  NRows = 2
  MaxOps = 2
INVARIANTS NoMissing Aligned WeakOnce Conserved MergeConserves
CHECK_DEADLOCK FALSE
