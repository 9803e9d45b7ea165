SPECIFICATION Spec
CONSTANTS N = 4
Coefs = {1, 2, 3}
Limits = {0, 10, 40, 100}
MaxIter = 1
INVARIANTS Positive
PROPERTIES NeverAway LimitKept SolvedWhenAllowed Rest
CHECK_DEADLOCK FALSE
