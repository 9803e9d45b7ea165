SPECIFICATION Spec
CONSTANT MaxOps = 4
INVARIANTS InvalidNeverTrains GoodInitRepairs CellRules
PROPERTIES RefusalHarmless ResultsOnlyFromValid
CHECK_DEADLOCK FALSE
