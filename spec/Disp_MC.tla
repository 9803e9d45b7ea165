------------------------------- MODULE Disp_MC -------------------------------
EXTENDS Disp
BsDef == {0 - 30, 0 - 6, 0 - 1, 0, 1, 5, 30}
LevelsDef == <<32, 16, 8, 4>>
=============================================================================
