SPECIFICATION Spec
CONSTANTS
  Kinds = {1, 2, 3}
  MaxOps = 3
  Indices = {0, 2}
  Thr = 3
  Lower = TRUE
  Losses = {2}
INVARIANTS Partition ThresholdKept FoundersApart NoMoreThanThereAre NeverEmpty
CHECK_DEADLOCK FALSE
