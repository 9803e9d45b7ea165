------------------------------- MODULE BootMap -------------------------------
(* Mapping of bootstrap factors to base factors, in exact arithmetic over   *)
(* integer profiles, and the tables compiled from the mappings of all runs. *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
SumXY(x, y) == SumSeq([i \in 1..Len(x) |-> x[i] * y[i]])
Cov(x, y) == Len(x) * SumXY(x, y) - SumSeq(x) * SumSeq(y)
Var(x) == Cov(x, x)
(* r^2(x, a) <= r^2(x, b), all variances positive                            *)
R2Le(x, a, b) == Cov(x, a) * Cov(x, a) * Var(b) <= Cov(x, b) * Cov(x, b) * Var(a)
(* 100 r^2 compared with the percentage p                                   *)
R2Above(x, a, p) == 100 * Cov(x, a) * Cov(x, a) > p * Var(x) * Var(a)
R2Equal(x, a, p) == 100 * Cov(x, a) * Cov(x, a) = p * Var(x) * Var(a)

Best(x, base) == {m \in 1..Len(base) : \A j \in 1..Len(base) : R2Le(x, base[j], base[m])}
(* The rule for exact ties: the factor of the same number, else the first.  *)
Match(x, base, i) == LET b == Best(x, base) IN IF i \in b THEN i ELSE CHOOSE m \in b : \A j \in b : m <= j

(* A run's mapping is a sequence of base factor numbers, 0 for unmapped.    *)
AddRun(table, mapping) ==
  [i \in 1..Len(mapping) |-> [j \in 0..Len(mapping) |-> table[i][j] + IF mapping[i] = j THEN 1 ELSE 0]]
EmptyTable(k) == [i \in 1..k |-> [j \in 0..k |-> 0]]
RowTotal(row, k) == SumSeq([j \in 1..(k + 1) |-> row[j - 1]])

(* Linear-interpolation percentile p of a sorted sequence, times 100.       *)
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), x)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(Tail(s)), Head(s))
Percentile(s, p) ==
  LET t == Sorted(s)
      pos == (Len(s) - 1) * p
      lo == pos \div 100
      fr == pos % 100
  IN IF fr = 0 THEN 100 * t[lo + 1] ELSE t[lo + 1] * (100 - fr) + t[lo + 2] * fr

-----------------------------------------------------------------------------
CONSTANTS Vals, Feat, K, Runs, Thr
VARIABLES base, table, n, last
vars == <<base, table, n, last>>
Profile == {x \in [1..Feat -> Vals] : Var(x) > 0}
Init == base \in [1..K -> Profile] /\ table = EmptyTable(K) /\ n = 0 /\ last = <<>>
MapOf(H) == [i \in 1..K |-> LET m == Match(H[i], base, i)
                            IN IF R2Above(H[i], base[m], Thr) \/ R2Equal(H[i], base[m], Thr) THEN m ELSE 0]
Next == /\ n < Runs
        /\ \E H \in [1..K -> Profile] :
             table' = AddRun(table, MapOf(H)) /\ last' = [i \in 1..K |-> H[i][1]]
        /\ n' = n + 1 /\ UNCHANGED base
Spec == Init /\ [][Next]_vars
Conserved == \A i \in 1..K : RowTotal(table[i], K) = n
PercentilesOrdered == last # <<>> =>
  \A p, q \in {0, 5, 25, 50, 75, 95, 100} : p <= q => Percentile(last, p) <= Percentile(last, q)
SelfMaps == \A i \in 1..K : Match(base[i], base, i) = i
=============================================================================
