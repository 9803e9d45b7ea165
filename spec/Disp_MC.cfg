SPECIFICATION Spec
CONSTANTS
  S = 256
  As = {1, 3, 10, 40, 90}
  Bs <- BsDef
  Levels <- LevelsDef
  Thr = 1
  MaxSteps = 12
  MaxDouble = 4
INVARIANTS Bracket Nested Largest ToZero
PROPERTY Ends
CHECK_DEADLOCK FALSE
