------------------------------- MODULE BSDisp -------------------------------
(* BS-DISP: every bootstrap run is displaced once, workers deliver in any   *)
(* order, the compiled table folds the runs in run order.  A run carries a  *)
(* profile value, its limits and whether its loss dropped.                  *)
EXTENDS Integers, Sequences, FiniteSets
Max(X) == CHOOSE x \in X : \A y \in X : y <= x
Min(X) == CHOOSE x \in X : \A y \in X : x <= y
RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)
CONSTANTS MaxR, Vals
VARIABLES r, low, base, up, drop, arrived, acc, k
vars == <<r, low, base, up, drop, arrived, acc, k>>
Init == /\ r \in 1..MaxR
        /\ base \in [1..r -> Vals]
        /\ low \in [1..r -> Vals] /\ up \in [1..r -> Vals]
        /\ \A i \in 1..r : low[i] <= base[i] /\ base[i] <= up[i]
        /\ drop \in [1..r -> {0 - 1, 0}]
        /\ arrived = {} /\ k = 0 /\ acc = [lo |-> 0, hi |-> 0, sum |-> 0, drop |-> 0, n |-> 0]
Deliver(i) == i \notin arrived /\ arrived' = arrived \cup {i} /\ UNCHANGED <<r, low, base, up, drop, acc, k>>
Fold == /\ arrived = 1..r /\ k < r /\ k' = k + 1
        /\ acc' = IF k = 0 THEN [lo |-> low[1], hi |-> up[1], sum |-> base[1], drop |-> drop[1], n |-> 0 - drop[1]]
                  ELSE [lo |-> Min({acc.lo, low[k + 1]}), hi |-> Max({acc.hi, up[k + 1]}),
                        sum |-> acc.sum + base[k + 1], drop |-> Min({acc.drop, drop[k + 1]}), n |-> acc.n - drop[k + 1]]
        /\ UNCHANGED <<r, low, base, up, drop, arrived>>
Next == Fold \/ \E i \in 1..r : Deliver(i)
Spec == Init /\ [][Next]_vars
Exact == k = r =>
  /\ acc.lo = Min({low[i] : i \in 1..r}) /\ acc.hi = Max({up[i] : i \in 1..r})
  /\ acc.sum = SumF(base, r) /\ acc.drop = Min({drop[i] : i \in 1..r})
  /\ acc.n = Cardinality({i \in 1..r : drop[i] < 0})
Enclosed == k = r => (acc.lo * r <= acc.sum /\ acc.sum <= acc.hi * r)
=============================================================================
