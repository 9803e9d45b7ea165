---------------------------- MODULE Catalog_Trace ----------------------------
(* Recorded catalogues.  cfg: agr (agreement of contributions or masses by   *)
(* the catalogue's method), pro (of profiles), whm (of products), rows are   *)
(* members and columns the compared factor, in 1e-4; lower, thr, pct.        *)
(* Add: the factors given in order, and the clusters afterwards.             *)
EXTENDS Catalog, TraceBase
VARIABLES c, l, err, cur, cnt
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err, cur, cnt>>
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ cur = <<>> /\ cnt = 0
         /\ kind = <<>> /\ cls = <<>> /\ model = <<>> /\ joined = <<>> /\ hist = <<>> /\ n = 0 /\ given = {}

Tol == 2
Lo(e) == cfg.lower /\ ~e.prof
M(e) == IF e.prof THEN cfg.pro ELSE cfg.agr
Pos(cl, x) == CHOOSE j \in 1..Len(cl) : cl[j] = x
(* the cluster in which factor x ended up                                    *)
Where(e, x) == CHOOSE i \in 1..Len(e.clusters) : \E j \in 1..Len(e.clusters[i]) : e.clusters[i][j] = x
WorseBy(lower, a, b, tol) == IF lower THEN a > b + tol ELSE a < b - tol
(* factor x was put where the rule puts it (up to rounding)                  *)
RightPlace(e, before, x) ==
  LET w == Where(e, x)
      m == Means(M(e), before, x)
      can == {i \in 1..Len(before) : ~Lo(e) \/ m[i] < 10000}
  IN IF w <= Len(before)
     THEN /\ ~WorseBy(Lo(e), m[w], cfg.thr, Tol)
          /\ \A i \in 1..Len(before) : ~WorseBy(Lo(e), m[w], m[i], Tol)
     ELSE /\ w = Len(before) + 1
          /\ \A i \in can : WorseBy(Lo(e), m[i], cfg.thr, 0 - Tol)
RECURSIVE PlaceVerdict(_, _, _)
PlaceVerdict(e, before, xs) ==
  IF xs = <<>> THEN IF e.clusters = before THEN "" ELSE "each-factor-in-one-cluster"
  ELSE LET x == Head(xs)
           w == Where(e, x)
       IN IF ~RightPlace(e, before, x) THEN "best-cluster-within-threshold"
          ELSE IF w <= Len(before) /\ Abs(e.corr[w][Pos(e.clusters[w], x)] - MeanTo(M(e), before[w], x)) > Tol
               THEN "recorded-agreement"
          ELSE PlaceVerdict(e, IF w > Len(before) THEN Append(before, <<x>>) ELSE [before EXCEPT ![w] = Append(@, x)], Tail(xs))

(* the factors of the models which are not outliers, in order                *)
RECURSIVE Take(_, _, _)
Take(kss, kept, i) == IF i > Len(kss) THEN <<>> ELSE (IF i \in kept THEN kss[i] ELSE <<>>) \o Take(kss, kept, i + 1)
Want(e) == Take(e.factors, Kept(e.losses, e.pct, e.exclude), 1)
KeptModels(e) == {e.models[i] : i \in Kept(e.losses, e.pct, e.exclude)}
NewCount(e) == IF KeptModels(e) = {} THEN cnt ELSE Max2(cnt, 1 + MaxOf(KeptModels(e)))
Everything(e, ids) == /\ Members(e.clusters) = Members(cur) \cup {ids[i] : i \in 1..Len(ids)}
                      /\ SumSeq([i \in 1..Len(e.clusters) |-> Len(e.clusters[i])]) = SumSeq([i \in 1..Len(cur) |-> Len(cur[i])]) + Len(ids)
AddVerdict(e) ==
  CASE \E i \in 1..Len(e.clusters) : e.clusters[i] = <<>> -> "no-empty-cluster"
    [] ~Everything(e, Want(e)) -> "each-factor-in-one-cluster"
    [] PlaceVerdict(e, cur, Want(e)) # "" -> PlaceVerdict(e, cur, Want(e))
    [] e.new # Len(e.clusters) - Len(cur) -> "new-factors-returned"
    [] e.sources # [i \in 1..Len(e.clusters) |-> [j \in 1..Len(e.clusters[i]) |-> cfg.source[e.clusters[i][j]]]] -> "source-model"
    [] e.count # NewCount(e) -> "models-counted"
    [] OTHER -> ""
(* the table: one row per cluster in falling order of occurrence             *)
TableVerdict(e) ==
  CASE Len(e.label) # Len(cur) \/ {e.label[i] : i \in 1..Len(e.label)} # 1..Len(cur) -> "one-row-per-cluster"
    [] \E i \in 1..Len(cur) : e.n[i] # Len(cur[e.label[i]]) -> "count-is-members"
    [] \E i \in 1..Len(cur) : Abs(e.occ[i] * cnt - 10000 * e.n[i]) > cnt -> "occurrence"
    [] \E i \in 1..Len(cur) : i > 1 /\ e.occ[i] > e.occ[i - 1] -> "sorted-by-occurrence"
    [] \E i \in 1..Len(cur) : Abs(Len(cur[e.label[i]]) * e.corr[i] - SumSeq(e.recorded[e.label[i]])) > Len(cur[e.label[i]]) * Tol -> "mean-agreement"
    [] OTHER -> ""
(* queries: x is compared with every cluster                                 *)
QueryVerdict(e) ==
  LET mat == CASE e.what = "matrix" -> cfg.whm [] OTHER -> M(e)
      lower == IF e.what = "matrix" THEN FALSE ELSE Lo(e)
      m == [i \in 1..Len(cur) |-> SumSeq([j \in 1..Len(e.xs) |-> MeanTo(mat, cur[i], e.xs[j])]) \div Len(e.xs)]
      can == {i \in 1..Len(cur) : IF lower /\ e.what = "check" THEN m[i] < 10000 - Tol ELSE m[i] > Tol \/ lower}
  IN CASE e.best = 0 -> IF can = {} THEN "" ELSE "best-cluster-found"
       [] e.best \notin 1..Len(cur) -> "best-cluster-found"
       [] \E i \in 1..Len(cur) : WorseBy(lower, m[e.best], m[i], Tol) -> "best-cluster-found"
       [] Abs(e.value - m[e.best]) > Tol -> "agreement-value"
       [] OTHER -> ""
Verdict(e) == CASE e.ev = "Add" -> AddVerdict(e)
                [] e.ev = "Table" -> TableVerdict(e)
                [] e.ev = "Query" -> QueryVerdict(e)
                [] e.ev = "Unchanged" -> IF e.clusters = cur /\ e.count = cnt /\ e.inputs THEN "" ELSE "query-changes-nothing"
                [] e.ev = "Threshold" -> IF e.same THEN "" ELSE "threshold-kept"
                [] OTHER -> "unexpected-exception"
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN /\ l' = l + 1 /\ err' = ""
                             /\ cur' = IF ev[l].ev = "Add" THEN ev[l].clusters ELSE cur
                             /\ cnt' = IF ev[l].ev = "Add" THEN ev[l].count ELSE cnt
              ELSE l' = l /\ err' = v /\ cur' = cur /\ cnt' = cnt
         /\ UNCHANGED <<vars, c>>
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
