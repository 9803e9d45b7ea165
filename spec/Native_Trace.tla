---------------------------- MODULE Native_Trace ----------------------------
(* Recorded optimised trainings.                                            *)
(*   Iter/End  losses of one training (units with rounding error cfg.tol),  *)
(*             what the model reports afterwards                            *)
(*   Call      one progress report: model, iteration, limit, loss, robust   *)
(*             loss, mean, last one; with the robust loss computed (qr)     *)
(*   Model     a model trained anywhere in the library: the loss reported   *)
(*             by the training (q), of the returned solution (own), the     *)
(*             attributes Qtrue/Qrobust and their values computed (robust)  *)
(*   Same      a matrix and the one it must equal, within tol               *)
(*   Progress  reports of a batch: <<model, iteration, limit, last>> in the *)
(*             order of their arrival, and the steps of its models          *)
(*   Fact      a named condition                                            *)
EXTENDS Native, TraceBase
VARIABLES c, l, err, ncall
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err, ncall>>
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ st = [x \in {"vague"} |-> FALSE] @@ NInit /\ ncall = 0 - 1
         /\ data = 0 /\ unc = 0 /\ fac = 0 /\ calls = 0 /\ seen = <<>> /\ par = 0
After(e, d) == NIterate(st, e.q, cfg.n, d, cfg.maxIter)
Lo(e) == After(e, cfg.delta - cfg.tol)
Hi(e) == After(e, cfg.delta + cfg.tol)
IterVerdict(e) ==
  CASE st.done -> "iterates-after-stop"
    [] Len(st.hist) >= cfg.maxIter -> "more-than-max-iterations"
    [] ~e.last /\ Lo(e).done /\ Hi(e).done -> IF Lo(e).converged THEN "misses-convergence" ELSE "more-than-max-iterations"
    [] e.last /\ ~Lo(e).done /\ ~Hi(e).done -> "stops-too-early"
    [] OTHER -> ""
Pick(e) == IF e.last = Lo(e).done THEN Lo(e) ELSE Hi(e)
Vague(e) == Lo(e).converged # Hi(e).converged
NextSt(e) == [x \in {"vague"} |-> Vague(e)] @@ Pick(e)
Near(a, b, t) == Abs(a - b) <= t
EndVerdict(e) ==
  CASE e.iters # Len(st.hist) -> "loss-list-length"
    [] cfg.maxIter > 0 /\ ~st.done -> "stops-too-early"
    [] cfg.maxIter > 0 /\ ~st.vague /\ e.converged # st.converged -> "convergence-reported"
    [] cfg.maxIter > 0 /\ e.steps # Len(st.hist) - 1 -> "wrong-number-of-steps"
    [] OTHER -> ""
CallVerdict(e) ==
  CASE e.model # cfg.model -> "report-of-another-model"
    [] e.i <= ncall \/ e.i >= cfg.maxIter -> "order-of-reports"
    [] e.max # cfg.maxIter -> "reported-limit"
    [] e.done # e.last -> "last-report"
    [] ~Near(e.q, e.qi, e.tol) -> "reported-loss"
    [] ~Near(e.mse, e.msei, e.tol) -> "reported-mean"
    [] e.last /\ ~Near(e.qr, e.qri, e.tol) -> "reported-robust-loss"
    [] OTHER -> ""
ModelVerdict(e) ==
  CASE ~e.finite -> ""
    [] ~Near(e.q, e.own, e.tol) -> "loss-of-another-solution"
    [] ~Near(e.qtrue, e.own, e.tol) -> "loss-of-model"
    [] ~Near(e.qrobust, e.robust, e.tol) -> "robust-loss-of-model"
    [] e.robust > e.own + e.tol -> "robust-loss-larger"
    [] e.first < e.own - e.tol -> "loss-increased"
    [] ~e.wh -> "estimate-of-another-solution"
    [] OTHER -> ""
SameVerdict(e) ==
  IF Len(e.a) = Len(e.b) /\ \A i \in 1..Len(e.a) : Len(e.a[i]) = Len(e.b[i]) /\ \A j \in 1..Len(e.a[i]) : Near(e.a[i][j], e.b[i][j], e.tol)
  THEN "" ELSE e.what
Of(e, m) == SelectSeq(e.calls, LAMBDA x : x[1] = m)
ProgressVerdict(e) ==
  CASE \E i \in 1..Len(e.calls) : e.calls[i][1] \notin 1..Len(e.steps) -> "report-of-another-model"
    [] \E i \in 1..Len(e.calls) : e.calls[i][3] # e.max -> "reported-limit"
    [] \E m \in 1..Len(e.steps) : LET s == Of(e, m) IN s = <<>> \/ s[Len(s)][2] # e.steps[m] \/ s[Len(s)][4] # 1 -> "last-report"
    [] \E m \in 1..Len(e.steps) : LET s == Of(e, m) IN \E i \in 2..Len(s) : s[i - 1][2] >= s[i][2] \/ s[i - 1][4] = 1 -> "order-of-reports"
    [] OTHER -> ""
Verdict(e) == CASE e.ev = "Iter" -> IterVerdict(e)
                [] e.ev = "End" -> EndVerdict(e)
                [] e.ev = "Call" -> CallVerdict(e)
                [] e.ev = "Model" -> ModelVerdict(e)
                [] e.ev = "Same" -> SameVerdict(e)
                [] e.ev = "Progress" -> ProgressVerdict(e)
                [] e.ev = "Fact" -> IF e.ok THEN "" ELSE e.what
                [] OTHER -> "unexpected-exception"
TStep == /\ err = "" /\ l <= Len(ev)
         /\ LET e == ev[l]  v == Verdict(ev[l]) IN
              IF v = "" THEN /\ l' = l + 1 /\ err' = ""
                             /\ st' = IF e.ev = "Iter" THEN NextSt(e) ELSE st
                             /\ ncall' = IF e.ev = "Call" THEN e.i ELSE ncall
              ELSE l' = l /\ err' = v /\ st' = st /\ ncall' = ncall
         /\ UNCHANGED <<data, unc, fac, calls, seen, par, c>>
TSpec == TInit /\ [][TStep]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
