------------------------------- MODULE Compare -------------------------------
(* Figures that compare a PMF5 solution with an LS-NMF and a WS-NMF solution *)
(* of the same dataset.  A solution has integer profiles H[factor][feature]  *)
(* and contributions W[sample][factor]; map[s][i] is the factor of solution  *)
(* s that corresponds to factor i of PMF5.                                   *)
EXTENDS Integers, Sequences, FiniteSets
Sols == {"PMF", "LS", "WS"}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
SumAll(s) == SumTo(s, Len(s))
(* what one solution estimates for a cell, and what one factor adds to it    *)
Part(W, H, s, f, j) == W[s][f] * H[f][j]
Estimate(W, H, s, j) == SumAll([f \in 1..Len(H) |-> Part(W, H, s, f, j)])
(* the share of a factor in the profiles of a feature is H[f][j] / Mass      *)
Mass(H, j) == SumAll([f \in 1..Len(H) |-> H[f][j]])
Identity(k) == [i \in 1..k |-> i]
MapOf(maps, s) == IF s = "PMF" THEN Identity(Len(maps.LS)) ELSE maps[s]

CONSTANTS K, N, Vals, MaxOps
VARIABLES prof, maps, shown, n
vars == <<prof, maps, shown, n>>
Perms == {p \in [1..K -> 1..K] : \A a, b \in 1..K : a # b => p[a] # p[b]}
Nothing == [kind |-> "", bars |-> {}]
Init == /\ prof \in [Sols -> [1..K -> [1..N -> Vals]]] /\ maps \in [{"LS", "WS"} -> Perms]
        /\ shown = Nothing /\ n = 0
        /\ \A s \in Sols, j \in 1..N : Mass(prof[s], j) > 0
(* a bar: solution, the place it is shown at, its factor and, per feature,   *)
(* numerator and denominator of its share                                    *)
Bar(s, at, f) == [sol |-> s, at |-> at, factor |-> f, num |-> prof[s][f], den |-> [j \in 1..N |-> Mass(prof[s], j)]]
Factors == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<prof, maps>>
           /\ shown' = [kind |-> "factors", bars |-> {Bar(s, i, MapOf(maps, s)[i]) : s \in Sols, i \in 1..K}]
Pies(j) == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<prof, maps>>
           /\ shown' = [kind |-> "pie", bars |-> {[Bar(s, f, f) EXCEPT !.num = <<prof[s][f][j]>>, !.den = <<Mass(prof[s], j)>>] : s \in Sols, f \in 1..K}]
Next == Factors \/ \E j \in 1..N : Pies(j)
Spec == Init /\ [][Next]_vars
Mine(s) == {b \in shown.bars : b.sol = s}
(* every factor of every solution is shown exactly once                      *)
Complete == shown.kind # "" => \A s \in Sols : Cardinality(Mine(s)) = K /\ {b.factor : b \in Mine(s)} = 1..K /\ {b.at : b \in Mine(s)} = 1..K
RECURSIVE SumBars(_, _)
SumBars(S, j) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN b.num[j] + SumBars(S \ {b}, j)
(* the shares of a feature are shares of all of it                           *)
Whole == shown.kind # "" => \A s \in Sols : \A b \in Mine(s) : \A j \in 1..Len(b.den) : SumBars(Mine(s), j) = b.den[j]
SideBySide == shown.kind = "factors" => \A b \in shown.bars : b.factor = MapOf(maps, b.sol)[b.at]
ReadOnly == [][prof' = prof /\ maps' = maps]_vars
=============================================================================
