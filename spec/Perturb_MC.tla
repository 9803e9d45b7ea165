----------------------------- MODULE Perturb_MC -----------------------------
EXTENDS Perturb
MCU == [c \in Cells |-> c + 2]
=============================================================================
