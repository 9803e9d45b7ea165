---------------------------- MODULE Perturb_Trace ----------------------------
(* Recorded perturbation runs.  cfg: f factors, k models, n features,        *)
(* m samples, p and sigma per feature (1e-3).  Feature: the multipliers of   *)
(* one feature as logarithms (1e-4); sel: which differ from one; uerr: the   *)
(* largest relative difference between the perturbed uncertainty and base    *)
(* uncertainty times multiplier (1e-6).                                      *)
EXTENDS Integers, Sequences, FiniteSets, TraceBase
VARIABLES c, l, err
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<c, l, err>>
TInit == c \in 1..Len(Cases) /\ l = 1 /\ err = ""
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Sq(x) == x * x
P(e) == cfg.p[e.j]
S(e) == cfg.sigma[e.j] * 10       (* in 1e-4 *)
Sel(e) == {i \in 1..Len(e.sel) : e.sel[i]}
Logs(e) == SelectSeq(e.log, LAMBDA x : x # 0)
Var(e) == SumSeq([i \in 1..Len(Logs(e)) |-> Sq(Logs(e)[i] \div 10) \div 100])     (* sum of squares, 1e-4 *)
FeatureVerdict(e) ==
  LET k == Cardinality(Sel(e))
      m == Len(e.sel)
  IN CASE e.uerr > 2 -> "uncertainty-times-multiplier"
       [] \E i \in 1..m : ~e.sel[i] /\ e.log[i] # 0 -> "other-cells-unchanged"
       [] P(e) >= 1000 /\ k # m /\ S(e) > 0 -> "share-of-cells"
       [] P(e) <= 0 /\ k > 0 -> "share-of-cells"
       [] P(e) < 1000 /\ S(e) > 0 /\ m >= 60 /\ Sq((1000 * k - m * P(e)) \div 100) > 4 * m * P(e) + 400 -> "share-of-cells"
       [] \E i \in 1..m : Abs(e.log[i]) > 8 * S(e) -> "lognormal-multiplier"
       [] k >= 50 /\ S(e) >= 500 /\ Sq(SumSeq(e.log) \div (k * 50)) * k > 40 * Sq(S(e) \div 50 + 1) -> "lognormal-multiplier"
       [] k >= 50 /\ S(e) >= 500 /\ (2 * Var(e) > 5 * k * (Sq(S(e) \div 10) \div 100) \/ 5 * Var(e) < 2 * k * (Sq(S(e) \div 10) \div 100))
            -> "lognormal-multiplier"
       [] OTHER -> ""
(* runs of one setting, k models; each model is compared with a training     *)
(* from the base solution with the uncertainties of its multipliers          *)
RunVerdict(e) ==
  CASE e.count # cfg.k \/ e.mcount # cfg.k -> "one-model-per-run"
    [] \E i \in 1..cfg.k : ~e.aligned[i] -> "multiplier-of-the-model"
    [] \E i \in 1..cfg.k : ~e.data[i] -> "trained-on-the-base-data"
    [] \E i \in 1..cfg.k : ~e.trained[i] -> "trained-from-the-base-model"
    [] cfg.varied /\ Cardinality({e.ids[i] : i \in 1..cfg.k}) # cfg.k -> "runs-differ"
    [] OTHER -> ""
Perms == {q \in [1..cfg.f -> 1..cfg.f] : \A i, j \in 1..cfg.f : i # j => q[i] # q[j]}
(* measures may be as large as they like (saturated values): only mappings   *)
(* of moderate values are compared with the others                           *)
Score(e, q) == SumSeq([i \in 1..cfg.f |-> Min2(e.agr[i][q[i]], 100000000)])
Moderate(e) == \A i \in 1..cfg.f : Abs(e.agr[i][e.map[i]]) < 10000000
CompareVerdict(e) ==
  CASE e.map \notin Perms -> "one-to-one-mapping"
    [] Moderate(e) /\ \E q \in Perms : IF e.lower THEN Score(e, q) < Score(e, e.map) - 3 ELSE Score(e, q) > Score(e, e.map) + 3 -> "best-mapping"
    [] \E i \in 1..cfg.f : Abs(e.values[i] - e.agr[i][e.map[i]]) > 2 -> "agreement-of-the-mapping"
    [] \E i \in 1..cfg.f : e.h[i] # e.map[i] -> "profiles-follow-the-mapping"
    [] \E i \in 1..cfg.f : e.w[i] # e.map[i] -> "contributions-follow-the-mapping"
    [] OTHER -> ""
Flags(e) == e.flags
Verdict(e) == CASE e.ev = "Feature" -> FeatureVerdict(e)
                [] e.ev = "Run" -> RunVerdict(e)
                [] e.ev = "Compare" -> CompareVerdict(e)
                [] e.ev = "Same" -> IF \A i \in 1..Len(e.flags) : e.flags[i] THEN "" ELSE e.what
                [] OTHER -> "unexpected-exception"
Step == /\ err = "" /\ l <= Len(ev)
        /\ err' = Verdict(ev[l])
        /\ l' = IF err' = "" THEN l + 1 ELSE l
        /\ UNCHANGED c
TSpec == TInit /\ [][Step]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
