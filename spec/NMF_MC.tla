------------------------------- MODULE NMF_MC -------------------------------
(* Design check: alternating half steps of the ls-nmf iteration on all      *)
(* small matrices (2x2, one factor) in fixed point (unit 1/S), with the     *)
(* hold/delay rule.  The loss never increases, signs and zeros are kept,    *)
(* and H changes only in iterations where it is not held.                   *)
EXTENDS NMF, FiniteSets
CONSTANTS S, VVals, WeVals, FVals, Delays, Steps
VARIABLES V, We, W, H, hold, delay, i, half, q, hUpdates
vars == <<V, We, W, H, hold, delay, i, half, q, hUpdates>>

M2(X) == [1..2 -> [1..2 -> X]]
Fix(a, b) == (a * S) \div b
(* Fixed point operators: entries of V, W, H carry unit 1/S.                *)
P(w, h) == (w * h) \div S
FLoss(v, w, h) == Sum([r \in 1..2 |-> Sum([j \in 1..2 |->
                     We[r][j] * (Sq(v[r][j] - P(w[r][1], h[1][j])) \div S)])])

Init == /\ V \in [1..2 -> [1..2 -> {x * S : x \in VVals}]]
        /\ We \in M2(WeVals)
        /\ W \in [1..2 -> [1..1 -> {x * S : x \in FVals}]]
        /\ H \in [1..1 -> [1..2 -> {x * S : x \in FVals \ {0}}]]
        /\ hold \in BOOLEAN /\ delay \in Delays
        /\ (~hold => delay = 0)
        /\ (\E r \in 1..2: W[r][1] > 0)
        /\ i = 0 /\ half = "H" /\ q = FLoss(V, W, H) /\ hUpdates = {}

StepH == /\ half = "H" /\ i < Steps
         /\ half' = "W"
         /\ IF Held(hold, delay, i) THEN UNCHANGED <<H, hUpdates>>
            ELSE /\ H' = [k \in 1..1 |-> [j \in 1..2 |->
                      LET n == Sum([r \in 1..2 |-> P(W[r][1], We[r][j] * V[r][j])])
                          d == Sum([r \in 1..2 |-> P(W[r][1], We[r][j] * P(W[r][1], H[1][j]))])
                      IN IF d = 0 THEN 0 ELSE (H[1][j] * n) \div d]]
                 /\ hUpdates' = hUpdates \cup {i}
         /\ q' = FLoss(V, W, H')
         /\ UNCHANGED <<V, We, W, hold, delay, i>>
StepW == /\ half = "W"
         /\ half' = "H" /\ i' = i + 1
         /\ W' = [r \in 1..2 |-> [k \in 1..1 |->
              LET n == Sum([j \in 1..2 |-> P(H[1][j], We[r][j] * V[r][j])])
                  d == Sum([j \in 1..2 |-> P(H[1][j], We[r][j] * P(W[r][1], H[1][j]))])
              IN IF d = 0 THEN 0 ELSE (W[r][1] * n) \div d]]
         /\ q' = FLoss(V, W', H)
         /\ UNCHANGED <<V, We, H, hold, delay, hUpdates>>
Next == StepH \/ StepW
Spec == Init /\ [][Next]_vars

NonNegative == (\A r \in 1..2: W[r][1] >= 0) /\ (\A j \in 1..2: H[1][j] >= 0)
(* Rounding slack: a few units per cell.                                    *)
LossNeverIncreases == [][q' <= q + 64]_vars
ZerosStay == [][\A r \in 1..2: W[r][1] = 0 => W'[r][1] = 0]_vars
HeldRule == hUpdates = {x \in 0..(IF half = "W" THEN i ELSE i - 1) : ~hold \/ (delay > 0 /\ x > delay)}
=============================================================================
