------------------------------- MODULE Impute -------------------------------
(* Filling the gaps of a dataset.  Values are integers, Missing (not a       *)
(* number) or the caller's own marker Marker; filled values are in units of  *)
(* 1/Unit.  A matrix is a sequence of rows.                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Values, NRows, NCols, Marker, Unit, Ks
Missing == 0 - 1
VARIABLES raw, marked, filled, rule, phase
vars == <<raw, marked, filled, rule, phase>>

RECURSIVE SumOf(_, _)
SumOf(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(S \ {x}, f)
Here(M, j) == {i \in 1..Len(M) : M[i][j] # Missing}
Col(M, j) == [i \in Here(M, j) |-> M[i][j]]
Mark(M, mk) == [i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> IF M[i][j] = mk THEN Missing ELSE M[i][j]]]

(* the values a rule may put into the gaps of column j (in 1/Unit)           *)
MeanOver(M, j, S) == (Unit * SumOf(S, [i \in S |-> M[i][j]])) \div Cardinality(S)
Means(M, j) == {MeanOver(M, j, Here(M, j))}
Rank(M, j, i) == Cardinality({x \in Here(M, j) : M[x][j] < M[i][j]})
UpTo(M, j, i) == Cardinality({x \in Here(M, j) : M[x][j] <= M[i][j]})
(* the values at place k of the sorted column                                *)
At(M, j, k) == LET i == CHOOSE i \in Here(M, j) : Rank(M, j, i) < k /\ k <= UpTo(M, j, i) IN M[i][j]
Medians(M, j) == LET n == Cardinality(Here(M, j))
                 IN {(Unit * (At(M, j, (n + 1) \div 2) + At(M, j, (n + 2) \div 2))) \div 2}
Freq(M, j, v) == Cardinality({i \in Here(M, j) : M[i][j] = v})
Modes(M, j) == {Unit * M[i][j] : i \in {i \in Here(M, j) : \A x \in Here(M, j) : Freq(M, j, M[x][j]) <= Freq(M, j, M[i][j])}}

(* k nearest rows: the mean square difference over the columns both have     *)
Both(M, r, s) == {j \in 1..Len(M[r]) : M[r][j] # Missing /\ M[s][j] # Missing}
Dist(M, r, s) == LET B == Both(M, r, s)
                 IN (840 * SumOf(B, [j \in B |-> (M[r][j] - M[s][j]) * (M[r][j] - M[s][j])])) \div Cardinality(B)
Donors(M, r, j) == Here(M, j) \ {r}
Nearest(M, r, j, k) ==
  LET D == Donors(M, r, j)
      kk == IF k < Cardinality(D) THEN k ELSE Cardinality(D)
      d == [s \in D |-> Dist(M, r, s)]
  IN {S \in SUBSET D : Cardinality(S) = kk /\ \A a \in S : \A b \in D \ S : d[a] <= d[b]}
Neighbours(M, r, j, k) == {MeanOver(M, j, S) : S \in Nearest(M, r, j, k)}
(* every pair of rows can be compared                                        *)
Comparable(M) == \A r, s \in 1..Len(M) : Both(M, r, s) # {}

Fills(M, r, j, what, k) ==
  CASE what = "mean" -> Means(M, j)
    [] what = "median" -> Medians(M, j)
    [] what = "most_frequent" -> Modes(M, j)
    [] what = "knn" -> Neighbours(M, r, j, k)

Matrices == [1..NRows -> [1..NCols -> Values \cup {Missing, Marker}]]
Rules == {[what |-> w, k |-> 0] : w \in {"mean", "median", "most_frequent"}} \cup {[what |-> "knn", k |-> k] : k \in Ks}
Usable(M) == \A j \in 1..NCols : Here(M, j) # {}
Init == /\ raw \in Matrices /\ rule \in Rules /\ marked = <<>> /\ filled = <<>> /\ phase = "raw"
        /\ Usable(Mark(raw, Marker)) /\ (rule.what = "knn" => Comparable(Mark(raw, Marker)))
DoMark == /\ phase = "raw" /\ marked' = Mark(raw, Marker) /\ phase' = "marked" /\ UNCHANGED <<raw, filled, rule>>
(* gaps are filled one by one, each from the present values only             *)
Gaps == {p \in (1..NRows) \X (1..NCols) : marked[p[1]][p[2]] = Missing}
Base == [i \in 1..NRows |-> [j \in 1..NCols |-> IF marked[i][j] = Missing THEN Missing ELSE Unit * marked[i][j]]]
Start == /\ phase = "marked" /\ filled' = Base /\ phase' = "fill" /\ UNCHANGED <<raw, marked, rule>>
Fill == /\ phase = "fill"
        /\ \E p \in Gaps : /\ filled[p[1]][p[2]] = Missing
                           /\ \E v \in Fills(marked, p[1], p[2], rule.what, rule.k) : filled' = [filled EXCEPT ![p[1]][p[2]] = v]
        /\ UNCHANGED <<raw, marked, rule, phase>>
Done == /\ phase = "fill" /\ \A i \in 1..NRows, j \in 1..NCols : filled[i][j] # Missing
        /\ phase' = "done" /\ UNCHANGED <<raw, marked, filled, rule>>
Next == DoMark \/ Start \/ Fill \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

PresentKept == phase \in {"fill", "done"} =>
                 \A i \in 1..NRows, j \in 1..NCols : raw[i][j] \notin {Missing, Marker} => filled[i][j] = Unit * raw[i][j]
Complete == phase = "done" => \A i \in 1..NRows, j \in 1..NCols : filled[i][j] # Missing /\ filled[i][j] # Unit * Marker
(* a filled value lies between values of its column                          *)
Within == phase \in {"fill", "done"} => \A i \in 1..NRows, j \in 1..NCols :
            filled[i][j] # Missing => \E a, b \in Here(marked, j) : Unit * marked[a][j] <= filled[i][j] /\ filled[i][j] <= Unit * marked[b][j]
Ends == <>(phase = "done")
=============================================================================
