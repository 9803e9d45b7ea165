------------------------------- MODULE Catalog -------------------------------
(* The factor catalogue.  Factors arrive one at a time; agreement of factor  *)
(* x with the members of a cluster is the mean of the pairwise agreements    *)
(* agr[member][x] (an error when `lower`, else a correlation).  A factor     *)
(* joins the best agreeing cluster when that agreement is within the         *)
(* threshold, and founds a cluster otherwise.                                *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
MeanTo(agr, cl, x) == SumSeq([i \in 1..Len(cl) |-> agr[cl[i]][x]]) \div Len(cl)
(* a is strictly better than b                                               *)
Better(lower, a, b) == IF lower THEN a < b ELSE a > b
Within(lower, v, thr) == IF lower THEN v <= thr ELSE v >= thr
Means(agr, cls, x) == [i \in 1..Len(cls) |-> MeanTo(agr, cls[i], x)]
(* the first of the best agreeing clusters; 0 when there is none             *)
BestCluster(agr, cls, x, lower) ==
  LET m == Means(agr, cls, x)
      b == {i \in 1..Len(cls) : \A j \in 1..Len(cls) : ~Better(lower, m[j], m[i])}
  IN IF b = {} THEN 0 ELSE CHOOSE i \in b : \A j \in b : i <= j
Place(agr, cls, x, lower, thr) ==
  LET b == BestCluster(agr, cls, x, lower) IN
  IF b = 0 \/ ~Within(lower, MeanTo(agr, cls[b], x), thr) THEN Append(cls, <<x>>)
  ELSE [cls EXCEPT ![b] = Append(@, x)]
RECURSIVE PlaceAll(_, _, _, _, _)
PlaceAll(agr, cls, xs, lower, thr) ==
  IF xs = <<>> THEN cls ELSE PlaceAll(agr, Place(agr, cls, Head(xs), lower, thr), Tail(xs), lower, thr)

Members(cls) == UNION {{cls[i][j] : j \in 1..Len(cls[i])} : i \in 1..Len(cls)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
(* an outlier's loss exceeds the lowest loss of its batch by more than the factor (percent) *)
Kept(losses, pct, exclude) ==
  LET low == CHOOSE x \in {losses[i] : i \in 1..Len(losses)} : \A i \in 1..Len(losses) : x <= losses[i]
  IN {i \in 1..Len(losses) : ~exclude \/ 100 * losses[i] <= pct * low}

-----------------------------------------------------------------------------
(* kinds of factors; two factors of kinds p, q agree by Table[p][q]          *)
CONSTANTS Kinds, MaxOps, Indices, Thr, Lower, Losses
Table == [p \in Kinds |-> [q \in Kinds |->
            IF Lower THEN (IF p = q THEN 0 ELSE 3 * (p - q) * (p - q)) ELSE (IF p = q THEN 10 ELSE 10 - 3 * (p - q) * (p - q))]]
VARIABLES kind, cls, model, joined, hist, n, given
vars == <<kind, cls, model, joined, hist, n, given>>
(* kind[x], model[x]: kind and model number of factor x; joined[x]: its mean agreement on joining (a founder: none) *)
Agr(k) == [x \in 1..Len(k) |-> [y \in 1..Len(k) |-> Table[k[x]][k[y]]]]
Init == kind = <<>> /\ cls = <<>> /\ model = <<>> /\ joined = <<>> /\ hist = <<>> /\ n = 0 /\ given = {}

RECURSIVE Feed(_, _, _, _)
(* <<clusters, joined>> after the factors from number x on                   *)
Feed(agr, c0, j0, x) ==
  IF x > Len(agr) THEN <<c0, j0>>
  ELSE LET c1 == Place(agr, c0, x, Lower, Thr)
           b == BestCluster(agr, c0, x, Lower)
       IN Feed(agr, c1, Append(j0, IF Len(c1) > Len(c0) THEN -1 ELSE MeanTo(agr, c0[b], x)), x + 1)
Add(ks, ms) ==
  LET k2 == kind \o ks
      f == Feed(Agr(k2), cls, joined, Len(kind) + 1)
  IN kind' = k2 /\ model' = model \o ms /\ cls' = f[1] /\ joined' = f[2]
Model(i, ks) == /\ Add(ks, [x \in 1..Len(ks) |-> i])
                /\ given' = given \cup {i}
                /\ hist' = Append(hist, [op |-> "model", index |-> i, kinds |-> <<ks>>, losses |-> <<1>>, exclude |-> FALSE])
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Batch(kss, losses, exclude) ==
  LET kept == Kept(losses, 150, exclude)
      live == [i \in 1..Len(kss) |-> IF i \in kept THEN kss[i] ELSE <<>>]
  IN /\ Add(Flat(live), Flat([i \in 1..Len(kss) |-> [x \in 1..Len(live[i]) |-> i - 1]]))
     /\ given' = given \cup {i - 1 : i \in kept}
     /\ hist' = Append(hist, [op |-> "batch", index |-> 0, kinds |-> kss, losses |-> losses, exclude |-> exclude])
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E i \in Indices : \E p \in Kinds : Model(i, <<p>>)
           \/ \E i \in Indices : \E p, q \in Kinds : Model(i, <<p, q>>)
           \/ \E p, q, r \in Kinds : \E l1, l2 \in Losses : \E ex \in BOOLEAN : Batch(<<<<p, q>>, <<r>>>>, <<l1, l2>>, ex)
Spec == Init /\ [][Next]_vars

(* every factor is in exactly one cluster                                    *)
Partition == /\ Members(cls) = 1..Len(kind)
             /\ SumSeq([i \in 1..Len(cls) |-> Len(cls[i])]) = Len(kind)
ThresholdKept == \A i \in 1..Len(cls) : \A j \in 2..Len(cls[i]) : Within(Lower, joined[cls[i][j]], Thr)
(* founders do not fit any cluster founded before them, as it then was       *)
FoundersApart == \A i, j \in 1..Len(cls) : i < j => ~Within(Lower, Table[kind[cls[i][1]]][kind[cls[j][1]]], Thr) \/ Len(cls[i]) > 1
Count == IF given = {} THEN 0 ELSE 1 + MaxOf(given)
NoMoreThanThereAre == \A i \in 1..Len(cls) : Cardinality({model[cls[i][j]] : j \in 1..Len(cls[i])}) <= Count
NeverEmpty == \A i \in 1..Len(cls) : cls[i] # <<>>
=============================================================================
