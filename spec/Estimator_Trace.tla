--------------------------- MODULE Estimator_Trace ---------------------------
(* Recorded factor searches.  cfg: lo, hi, samples, share (percent of test   *)
(* cells), coef.  Sample: one trained model [k, seed, res (squared residuals *)
(* of every cell), sel (1 where the cell was selected for training; empty    *)
(* when the selection could not be observed), opts].  Table: the result.     *)
EXTENDS Estimator, TraceBase
VARIABLES c, l, err, smp
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err, smp>>
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ smp = <<>>
         /\ res = <<>> /\ sel = <<>> /\ count = <<>> /\ arrived = <<>> /\ lists = <<>> /\ table = <<>>

Mean10(s, in) == (PartSum(s.res, s.sel, in) * 10) \div PartLen(s.sel, in)
Both(s) == PartLen(s.sel, 0) > 0 /\ PartLen(s.sel, 1) > 0
Near(a, b, tol) == IF a = NaN \/ b = NaN THEN a = b ELSE Abs(a - b) <= tol
NearAll(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
Counts == [j \in 1..Len(smp) |-> smp[j].k]
Seen == \A j \in 1..Len(smp) : smp[j].sel # <<>>
Usable == Seen /\ \A j \in 1..Len(smp) : Both(smp[j])
Avg(f) == Rows(f, Counts, cfg.lo, cfg.hi)
TotalCells == SumSeq([j \in 1..Len(smp) |-> Len(smp[j].sel)])
TestCells == SumSeq([j \in 1..Len(smp) |-> PartLen(smp[j].sel, 0)])
ShareDev == Abs(100 * TestCells - cfg.share * TotalCells)
Pow(b, n) == CASE n = 0 -> 1 [] n = 1 -> b [] n = 2 -> b * b

Delta(t) == [i \in 1..Len(t) |-> IF i = 1 \/ t[i] = NaN \/ t[Max2(i - 1, 1)] = NaN THEN NaN ELSE t[i - 1] - t[i]]
MinOf(t) == LET S == {t[i] : i \in {i \in 1..Len(t) : t[i] # NaN}}
            IN IF S = {} THEN NaN ELSE CHOOSE x \in S : \A y \in S : x <= y
(* est = lowest test error / (test error * count^coef), est in 1e-4          *)
EstOK(e) == \A i \in 1..Len(e.est) :
  IF e.tt[i] = NaN THEN e.est[i] = NaN
  ELSE LET p == Pow(cfg.lo + i - 1, cfg.coef)
       IN Abs((e.est[i] * e.tt[i]) * p - MinOf(e.tt) * 10000) <= (e.tt[i] + e.est[i] + 1) * p + 10000

SampleVerdict(s) ==
  CASE s.k < cfg.lo \/ s.k > cfg.hi -> "count-in-range"
    [] ~s.alone -> "sample-is-an-ordinary-model"
    [] ~s.opts -> "training-options"
    [] s.sel # <<>> /\ Len(s.sel) # Len(s.res) -> "selection-covers-the-cells"
    [] OTHER -> ""
TableVerdict(e) ==
  CASE ~e.ok -> "search-failed"
    [] Len(smp) # cfg.samples -> "one-model-per-sample"
    [] Len(smp) > 7 /\ \A j \in 1..Len(smp) : smp[j].seed = smp[1].seed -> "samples-differ"
    [] Len(smp) > 7 /\ Usable /\ \A j \in 1..Len(smp) : smp[j].sel = smp[1].sel -> "selections-differ"
    [] Seen /\ TotalCells > 1000 /\ (ShareDev > 40000 \/ (ShareDev * ShareDev) \div 36 > (TotalCells * cfg.share) * (100 - cfg.share)) -> "test-share"
    [] e.factors # [i \in 1..(cfg.hi - cfg.lo + 1) |-> cfg.lo + i - 1] -> "one-row-per-count"
    [] Usable /\ ~NearAll(e.train, Avg([j \in 1..Len(smp) |-> Mean10(smp[j], 1)]), e.tol) -> "training-error"
    [] Usable /\ ~NearAll(e.test, Avg([j \in 1..Len(smp) |-> Mean10(smp[j], 0)]), e.tol) -> "test-error"
    [] ~NearAll(e.qt, Avg([j \in 1..Len(smp) |-> smp[j].qt]), 3) -> "q-true"
    [] ~NearAll(e.qr, Avg([j \in 1..Len(smp) |-> smp[j].qr]), 3) -> "q-robust"
    [] ~NearAll(e.delta, Delta(e.test), 2) -> "delta"
    [] ~EstOK(e) -> "estimate-formula"
    [] e.best # Estimated(e.estrank, cfg.lo) -> "best-estimate"
    [] ~e.inputs -> "inputs-changed"
    [] OTHER -> ""
PlotVerdict(e) ==
  CASE ~e.series -> "plot-shows-table"
    [] e.line # e.best -> "plot-marks-estimate"
    [] OTHER -> ""
Verdict(e) == CASE e.ev = "Sample" -> SampleVerdict(e)
                [] e.ev = "Table" -> TableVerdict(e)
                [] e.ev = "Plot" -> PlotVerdict(e)
                [] e.ev = "Fault" -> IF e.raised THEN "" ELSE "failed-sample-not-reported"
                [] e.ev = "Again" -> IF e.same THEN "" ELSE "same-seed-same-table"
                [] e.ev = "HeldOut" -> IF e.same THEN "" ELSE "held-out-cells-train-the-model"
                [] OTHER -> "unexpected-exception"
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN /\ l' = l + 1 /\ err' = ""
                             /\ smp' = CASE ev[l].ev = "Sample" -> Append(smp, ev[l])
                                         [] ev[l].ev = "Table" -> <<>>
                                         [] OTHER -> smp
              ELSE l' = l /\ err' = v /\ smp' = smp
         /\ UNCHANGED <<vars, c>>
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
