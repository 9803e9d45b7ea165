---------------------------- MODULE Impute_Trace ----------------------------
(* Recorded imputations.  An Impute event has the data and uncertainty given *)
(* (v, u: integers, -1 missing, Marker marked), whether the caller named the *)
(* marker, the rule and the frames returned in 1/Unit (fv, fu).              *)
EXTENDS Impute, TraceBase
VARIABLES c, l, err
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err>>
TInit == c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ raw = <<>> /\ marked = <<>> /\ filled = <<>> /\ rule = <<>> /\ phase = ""
Given(M, e) == IF e.marker THEN Mark(M, Marker) ELSE M
Close(x, S) == \E v \in S : Abs(x - v) <= 1
(* a weighted mean lies within the neighbours; rows at distance zero decide  *)
Weighted(M, r, j, k, x) ==
  \E S \in Nearest(M, r, j, k) :
    LET Z == {s \in S : Dist(M, r, s) = 0}
        T == IF Z = {} THEN S ELSE Z
    IN IF Z # {} THEN Abs(x - MeanOver(M, j, Z)) <= 1
       ELSE /\ \E a \in S : Unit * M[a][j] <= x + 1
            /\ \E b \in S : x <= Unit * M[b][j] + 1
            (* the mean of two is nearer to the closer one                   *)
            /\ \A a, b \in S : Cardinality(S) = 2 /\ Dist(M, r, a) < Dist(M, r, b)
                  => Abs(x - Unit * M[a][j]) <= Abs(x - Unit * M[b][j]) + 1
MatrixVerdict(M, F, e) ==
  CASE Len(F) # Len(M) \/ \E i \in 1..Len(M) : Len(F[i]) # Len(M[i]) -> "same-shape"
    [] \E i \in 1..Len(M) : \E j \in 1..Len(M[i]) : M[i][j] # Missing /\ F[i][j] # Unit * M[i][j] -> "present-values-kept"
    [] \E i \in 1..Len(M) : \E j \in 1..Len(M[i]) : F[i][j] = NaN \/ Abs(F[i][j]) >= Sat -> "gaps-filled"
    [] e.what = "iterative" -> ""
    [] \E i \in 1..Len(M) : \E j \in 1..Len(M[i]) :
         M[i][j] = Missing /\ ~IF e.what = "knn" /\ e.weighted THEN Weighted(M, i, j, e.k, F[i][j])
                               ELSE Close(F[i][j], Fills(M, i, j, e.what, e.k)) -> "filled-by-the-rule"
    [] OTHER -> ""
MaskOf(e) == [i \in 1..Len(e.v) |-> [j \in 1..Len(e.v[i]) |-> Given(e.v, e)[i][j] = Missing \/ Given(e.u, e)[i][j] = Missing]]
ImputeVerdict(e) ==
  LET a == MatrixVerdict(Given(e.v, e), e.fv, e)
      b == MatrixVerdict(Given(e.u, e), e.fu, e)
  IN CASE a # "" -> a
       [] b # "" -> b
       [] e.mask # MaskOf(e) -> "mask-of-missing-values"
       [] ~e.labels -> "index-and-columns-kept"
       [] ~e.returned -> "result-stored"
       [] ~e.untouched -> "dataset-unchanged"
       [] ~e.again -> "reproducible"
       [] OTHER -> ""
(* only the marker itself is marked: every other value is kept               *)
NearVerdict(e) ==
  CASE \E i \in 1..Len(e.kept) : \E j \in 1..Len(e.kept[i]) : ~e.marked[i][j] /\ ~e.kept[i][j] -> "present-values-kept"
    [] \E i \in 1..Len(e.kept) : \E j \in 1..Len(e.kept[i]) : e.marked[i][j] /\ e.kept[i][j] -> "filled-by-the-rule"
    [] e.mask # e.marked -> "mask-of-missing-values"
    [] OTHER -> ""
(* a column without any value is refused, never dropped                      *)
Verdict(e) == CASE e.ev = "Impute" -> ImputeVerdict(e)
                [] e.ev = "Near" -> NearVerdict(e)
                [] e.ev = "Refused" -> IF e.ok THEN "" ELSE e.what
                [] OTHER -> "unexpected-exception"
Step == /\ err = "" /\ l <= Len(ev)
        /\ err' = Verdict(ev[l])
        /\ l' = IF err' = "" THEN l + 1 ELSE l
        /\ UNCHANGED <<vars, c>>
TSpec == TInit /\ [][Step]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
