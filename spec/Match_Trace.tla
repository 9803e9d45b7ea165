----------------------------- MODULE Match_Trace -----------------------------
(* Recorded comparisons.  Swap: two integer profile sets (given to the code  *)
(* scaled) and the answer of the code.  Ref: the agreement matrices of one   *)
(* compared model, rows are base factors, columns the model's factors, in    *)
(* 1e-4; when the profiles are small integers (h1, h2, w1, w2) they are      *)
(* recomputed here.  Compare: the mapping the code reports.                  *)
EXTENDS Match, TraceBase
VARIABLES c, l, err, ref
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err, ref>>
TInit == c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ ref = <<>> /\ A = <<>> /\ B = <<>> /\ mat = <<>>

SwapVerdict(e) ==
  CASE Len(e.a) = Len(e.b) /\ Varied(e.a) /\ Varied(e.b) /\ Swapped(e.a, e.b) /\ ~e.swap -> "swap-not-reported"
    (* an exact tie with another factor is decided by rounding               *)
    [] Varied(e.a) /\ Varied(e.b) /\ e.swap
       /\ \A i, j \in 1..Len(e.a) : i # j => R2Lt(e.a[i], e.b[j], e.b[i]) -> "swap-reported"
    [] e.same /\ e.swap -> "swaps-with-itself"
    [] ~e.inputs -> "inputs-changed"
    [] OTHER -> ""

R2Is(x, y, v) == Abs(v * (Var(x) * Var(y)) - 10000 * (Cov(x, y) * Cov(x, y))) <= 2 * Var(x) * Var(y)
RaaeIs(x, y, v) == Abs(v * SumSeq(x) - 10000 * SumSeq([i \in 1..Len(x) |-> Abs(x[i] - y[i])])) <= 2 * SumSeq(x)
RefOK(e) ==
  e.h1 # <<>> => \A i \in 1..Len(e.h) : \A j \in 1..Len(e.h[i]) :
    /\ R2Is(e.h1[i], e.h2[j], e.h[i][j])
    /\ R2Is(e.w1[i], e.w2[j], e.w[i][j])
    /\ RaaeIs(e.w1[i], e.w2[j], e.raae[i][j])

(* the agreement a comparison by `method` maximises, times 3                 *)
Mat(r, method) == CASE method = "H" -> [i \in 1..Len(r.h) |-> [j \in 1..Len(r.h[i]) |-> 3 * r.h[i][j]]]
                    [] method = "W" -> [i \in 1..Len(r.w) |-> [j \in 1..Len(r.w[i]) |-> 3 * r.w[i][j]]]
                    [] method = "WH" -> [i \in 1..Len(r.wh) |-> [j \in 1..Len(r.wh[i]) |-> 3 * r.wh[i][j]]]
                    [] OTHER -> [i \in 1..Len(r.h) |-> [j \in 1..Len(r.h[i]) |-> r.h[i][j] + r.w[i][j] + r.wh[i][j]]]
Nb(r) == Len(r.h)
Ns(r) == Len(r.h[1])
Small(r) == Min2(Nb(r), Ns(r))
Big(r) == Max2(Nb(r), Ns(r))
Orient(r, m) == IF Nb(r) >= Ns(r) THEN Transpose(m, Nb(r), Ns(r)) ELSE m
Close(a, b, tol) == Abs(a - b) <= tol
Pick(r, m, map) == [i \in 1..Len(map) |-> Orient(r, m)[i][map[i]]]
CloseSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Close(s[i], t[i], tol)
(* the average over the smaller set, 1e-4                                    *)
ModelVerdict(r, x, method) ==
  LET m == Mat(r, method) IN
  CASE ~OneToOne(x.map, Small(r), Big(r)) -> "one-to-one"
    [] 3 * Small(r) * x.avg + 6 * Small(r) < Top(Orient(r, m), Small(r), Big(r)) -> "best-assignment"
    [] ~Close(3 * Small(r) * x.avg, Value(Orient(r, m), x.map), 6 * Small(r)) -> "average-is-of-the-map"
    [] ~CloseSeq(x.h, Pick(r, r.h, x.map), 2) \/ ~CloseSeq(x.w, Pick(r, r.w, x.map), 2)
         \/ ~CloseSeq(x.wh, Pick(r, r.wh, x.map), 2) -> "values-are-of-the-map"
    [] OTHER -> ""
FirstBad(e) == LET bad == {i \in 1..Len(e.models) : ModelVerdict(ref[i], e.models[i], cfg.method) # ""}
               IN IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j
CompareVerdict(e) ==
  CASE ~e.ok -> "comparison-failed"
    [] Len(e.models) # Len(ref) -> "every-model-compared"
    [] FirstBad(e) # 0 -> ModelVerdict(ref[FirstBad(e)], e.models[FirstBad(e)], cfg.method)
    [] e.best \notin 1..Len(ref) -> "best-model"
    [] \E i \in 1..Len(ref) : e.models[i].avg > e.models[e.best].avg + 1 -> "best-model"
    [] e.bestmap # e.models[e.best].map \/ ~Close(e.bestavg, e.models[e.best].avg, 1)
         \/ ~CloseSeq(e.besth, e.models[e.best].h, 1) \/ ~CloseSeq(e.bestw, e.models[e.best].w, 1)
         \/ ~CloseSeq(e.bestwh, e.models[e.best].wh, 1) -> "best-is-of-best-model"
    [] ~e.q -> "logged-q"
    [] ~e.inputs -> "inputs-changed"
    [] OTHER -> ""

(* FactorCompareV2: base and model have the same number of factors           *)
V2Mat(r, method) == CASE method = "raae" -> r.raae [] method = "emc" -> r.h [] OTHER -> r.w
MapVerdict(e) ==
  LET r == ref[e.model]
      m == V2Mat(r, e.method)
      k == Len(m)
  IN CASE ~OneToOne(e.map, k, k) -> "one-to-one"
       [] ~CloseSeq(e.values, [i \in 1..k |-> m[i][e.map[i]]], 2) -> "values-are-of-the-map"
       [] e.method = "raae" /\ Value(m, e.map) > Low(m, k, k) + 2 * k -> "best-assignment"
       [] e.method # "raae" /\ Value(m, e.map) + 2 * k < Top(m, k, k) -> "best-assignment"
       [] ~e.inputs -> "inputs-changed"
       [] OTHER -> ""
(* the tables a comparison works on: every live model, its own matrices      *)
TablesVerdict(e) ==
  CASE e.models # e.live -> "tables-of-the-models"
    [] \E j \in 1..Len(e.live) : \E q \in {"W", "H", "WH", "Q"} :
         ~\E i \in 1..Len(e.tables) : e.tables[i].model = e.live[j] /\ e.tables[i].what = q /\ e.tables[i].values -> "tables-of-the-models"
    [] \E i \in 1..Len(e.tables) : ~e.tables[i].labels -> "tables-labelled"
    [] ~e.estimate -> "estimate-of-the-base"
    [] OTHER -> ""
Verdict(e) == CASE e.ev = "Swap" -> SwapVerdict(e)
                [] e.ev = "Ref" -> IF RefOK(e) THEN "" ELSE "agreement-values"
                [] e.ev = "Compare" -> CompareVerdict(e)
                [] e.ev = "Tables" -> TablesVerdict(e)
                [] e.ev = "Map" -> MapVerdict(e)
                [] e.ev = "Loaded" -> IF e.same THEN "" ELSE "loaded-solution"
                [] e.ev = "Absent" -> IF e.loaded THEN "comparison-of-absent-files" ELSE ""
                [] OTHER -> "unexpected-exception"
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN /\ l' = l + 1 /\ err' = ""
                             /\ ref' = IF ev[l].ev = "Ref" THEN Append(ref, ev[l]) ELSE ref
              ELSE l' = l /\ err' = v /\ ref' = ref
         /\ UNCHANGED <<vars, c>>
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
