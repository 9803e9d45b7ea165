---------------------------- MODULE DispSched_MC ----------------------------
EXTENDS DispSched
All == SUBSET Tasks
=============================================================================
