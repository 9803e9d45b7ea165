SPECIFICATION Spec
CONSTANTS
  SVals = {0, 1, 3, 4, 5, 16, 17, 40}
  AVals = {1, 4, 12, 16, 20}
  Cells = 4
INVARIANTS RobustBelowTrue EqualWhenInside StrictWhenOutside AlphaMonotone NeverNegative
PROPERTY Grows
CHECK_DEADLOCK FALSE
