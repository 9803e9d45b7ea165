SPECIFICATION Spec
CONSTANTS
  Kinds = {1, 2, 3}
  MaxOps = 2
  Indices = {0, 2}
  Thr = 7
  Lower = FALSE
  Losses = {2, 4}
INVARIANTS Partition ThresholdKept FoundersApart NoMoreThanThereAre NeverEmpty
CHECK_DEADLOCK FALSE
