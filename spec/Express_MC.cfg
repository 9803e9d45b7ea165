SPECIFICATION Spec
CONSTANTS N = 3
Coefs = {1, 2}
Limits = {0, 10, 40, 100}
MaxIter = 2
INVARIANTS Positive
PROPERTIES NeverAway LimitKept SolvedWhenAllowed Rest
CHECK_DEADLOCK FALSE
