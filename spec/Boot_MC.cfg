SPECIFICATION Spec
CONSTANT MaxN = 6
INVARIANTS SameSize OnlyOriginalRows Wellformed EveryRowInSomeBlock BlockBelowHalf
PROPERTY Fills
CHECK_DEADLOCK FALSE
