SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1}
  Feat = 3
  K = 3
  MVals = {0, 1, 2}
INVARIANTS SelfNeverSwaps ScaleFree RenumberSwaps Shortcut Symmetric
CHECK_DEADLOCK FALSE
