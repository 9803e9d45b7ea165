----------------------------- MODULE Constrained -----------------------------
(* A constrained training.  Every iteration first moves the constrained     *)
(* element to its target and then lets the factorization update it; the     *)
(* update is multiplicative, so zero stays zero and otherwise any value can *)
(* come out.  The loss of moving the element from x to y is Sens*|y-x|.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Max, Sens, MaxIter, Types
VARIABLES type, base, p1, p2, x, moved, iter, lossN, done
vars == <<type, base, p1, p2, x, moved, iter, lossN, done>>
AbsD(a) == IF a < 0 THEN 0 - a ELSE a
DQ(a, b) == Sens * AbsD(a - b)

(* The values the constraint may move the current value v to.               *)
Targets(t, v, b, a1, a2) ==
  CASE t = "set to zero"       -> {0}
    [] t = "set to base value" -> {b}
    [] t = "define limits"     -> IF v < a1 THEN {a1} ELSE IF v > a2 THEN {a2} ELSE {v}
    [] t = "pull down"         -> {y \in 0..v : DQ(v, y) <= a1}
    [] t = "pull up"           -> {y \in v..Max : DQ(v, y) <= a1}
    [] t = "pull to value"     -> IF DQ(v, a1) < a2 THEN {a1}
                                  ELSE {y \in 0..Max : DQ(v, y) <= a2 /\ ((v <= y /\ y <= a1) \/ (a1 <= y /\ y <= v))}
Init == /\ type \in Types /\ base \in 1..Max /\ p1 \in 0..Max /\ p2 \in p1..Max
        /\ x = base /\ moved = base /\ iter = 0 /\ lossN = 0 /\ done = FALSE
Step == /\ ~done /\ iter < MaxIter
        /\ \E y \in Targets(type, x, base, p1, p2) :
             /\ moved' = y
             /\ x' \in (IF y = 0 THEN {0} ELSE 0..Max)
        /\ iter' = iter + 1 /\ lossN' = lossN + 1
        /\ UNCHANGED <<type, base, p1, p2, done>>
Stop == ~done /\ iter > 0 /\ done' = TRUE /\ UNCHANGED <<type, base, p1, p2, x, moved, iter, lossN>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
CanMove == Targets(type, x, base, p1, p2) # {}
ZeroHeld == (type = "set to zero" /\ iter > 0) => x = 0
BaseHeld == (type = "set to base value" /\ iter > 0) => moved = base
LimitsHeld == (type = "define limits" /\ iter > 0) => (p1 <= moved /\ moved <= p2)
LossPerIteration == lossN = iter
WithinLimit == [][(iter' = iter + 1 /\ type \in {"pull down", "pull up"}) => DQ(x, moved') <= p1]_vars
NotOvershot == [][(iter' = iter + 1 /\ type = "pull to value") =>
                     AbsD(moved' - p1) <= AbsD(x - p1)]_vars
=============================================================================
