-------------------------- MODULE Constrained_Trace --------------------------
EXTENDS TraceBase
VARIABLES c, l, err, st
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<c, l, err, st>>
TInit == c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ st = [iters |-> 0]
Near(a, b, tol) == Abs(a - b) <= tol

(* One constrained element in one iteration: cur -> given to the update.    *)
(* cur, given, base, a1, a2 in a common unit; dq, dqT (of the whole way to  *)
(* the target) and lim in another; tol the tolerance of dq.                 *)
Elem(e) ==
  CASE e.type = "set to zero" -> IF e.given = 0 THEN "" ELSE "zero-not-set"
    [] e.type = "set to base value" -> IF Near(e.given, e.base, 2) THEN "" ELSE "base-value-not-set"
    [] e.type = "define limits" ->
         IF e.cur < e.a1 - 2 THEN (IF Near(e.given, e.a1, 2) THEN "" ELSE "not-moved-to-lower-limit")
         ELSE IF e.cur > e.a2 + 2 THEN (IF Near(e.given, e.a2, 2) THEN "" ELSE "not-moved-to-upper-limit")
         ELSE (IF Near(e.given, e.cur, 4) THEN "" ELSE "moved-inside-limits")
    [] e.type = "pull down" ->
         CASE e.given > e.cur + 2 \/ e.given < 0 -> "pulled-the-wrong-way"
           [] e.dq > e.lim + e.tol -> "pulled-beyond-dQ"
           [] e.dq < e.lim - e.band - e.tol /\ e.given > 2 -> "pulled-too-little"
           [] OTHER -> ""
    [] e.type = "pull up" ->
         CASE e.given < e.cur - 2 -> "pulled-the-wrong-way"
           [] e.dq > e.lim + e.tol -> "pulled-beyond-dQ"
           [] e.dq < e.lim - e.band - e.tol /\ ~e.huge -> "pulled-too-little"
           [] OTHER -> ""
    [] e.type = "pull to value" ->
         CASE ~(\/ (e.cur - 2 <= e.given /\ e.given <= e.a1 + 2) \/ (e.a1 - 2 <= e.given /\ e.given <= e.cur + 2)) -> "pulled-past-target"
           [] e.dqT < e.lim - e.tol /\ ~Near(e.given, e.a1, 2) -> "target-not-taken"
           [] e.dq > e.lim + e.tol -> "pulled-beyond-dQ"
           [] OTHER -> ""
IterVerdict(e) ==
  LET bad == {x \in 1..Len(e.el) : Elem(e.el[x]) # ""} IN
  CASE bad # {} -> Elem(e.el[CHOOSE x \in bad : TRUE])
    [] e.others > 2 -> "unconstrained-element-moved"
    [] e.expr.n > 0 /\ e.expr.moved > 0 /\ e.expr.rise > e.expr.lim + e.expr.tol -> "expression-beyond-dQ"
    [] e.expr.n > 0 /\ e.expr.moved > 0 /\ e.expr.res1 > Max2(e.expr.res0, e.expr.best) + 2 -> "expression-moved-away-from-zero"
    \* not solved as well as positive values can: only for the sake of the limit
    [] e.expr.n > 0 /\ e.expr.moved > 0 /\ e.expr.res1 > e.expr.best + 20 /\ e.expr.more < e.expr.lim - e.expr.tol -> "expression-not-solved"
    [] e.expr.n > 0 /\ e.expr.moved = 0 /\ e.expr.res0 > e.expr.best + 20 /\ e.expr.least < e.expr.lim - e.expr.tol -> "expression-not-moved"
    [] OTHER -> ""
(* Losses of the iterations: recorded and recomputed, relative unit 1e-6    *)
LossVerdict(e) ==
  CASE Len(e.qt) # st.iters \/ Len(e.qr) # st.iters \/ Len(e.qa) # st.iters -> "one-loss-per-iteration"
    [] \E t \in 1..st.iters : ~Near(e.qt[t], e.qtRe[t], 20) -> "recorded-true-loss"
    [] \E t \in 1..st.iters : ~Near(e.qr[t], e.qrRe[t], 20) -> "recorded-robust-loss"
    [] \E t \in 1..st.iters : ~Near(e.qa[t], e.qaRe[t], 20) -> "recorded-aux-loss"
    [] OTHER -> ""
(* Stopping: rng[t] the range of Q(main) over the last n iterations up to t, *)
(* relative to the allowed change (1e6 = exactly the allowed change).        *)
StopVerdict(e) ==
  LET rng == e.rng
      T == st.iters
  IN CASE T > cfg.max \/ T = 0 -> "iteration-limit"
       [] \E t \in 1..(T - 1) : t > cfg.n /\ rng[t] < 999000 -> "trained-past-convergence"
       [] T < cfg.max /\ ~(T > cfg.n /\ rng[T] <= 1001000) -> "stopped-before-convergence"
       [] e.converged /\ ~(T > cfg.n /\ rng[T] <= 1001000) -> "converged-flag"
       [] ~e.converged /\ T > cfg.n /\ rng[T] < 999000 -> "converged-flag"
       [] e.steps # T - 1 -> "step-count"
       [] e.finalW # e.lastW -> "model-W-is-last-iterate"
       [] e.finalHDiff > 1 -> "model-H-is-last-iterate"
       [] e.whDiff > 5 -> "reconstruction"
       [] ~Near(e.qt, e.qtRe, 50) -> "model-true-loss"
       [] ~Near(e.qr, e.qrRe, 50) -> "model-robust-loss"
       [] \E z \in 1..Len(e.zeros) : e.zeros[z] > 1 -> "zero-in-result"
       [] e.method # cfg.method \/ e.factors # cfg.k -> "model-settings"
       [] e.data # e.baseData -> "model-data"
       [] OTHER -> ""
ViewVerdict(e) == IF Len(e.shown) # Len(e.want) \/ \E x \in 1..Len(e.want) : ~Near(e.shown[x], e.want[x], e.tol) THEN "shown-" \o e.what ELSE ""
Verdict(e) ==
  CASE e.ev = "Iter" -> IterVerdict(e)
    [] e.ev = "Loss" -> LossVerdict(e)
    [] e.ev = "Stop" -> StopVerdict(e)
    [] e.ev = "View" -> ViewVerdict(e)
    [] e.ev = "Base" -> IF e.before = e.after THEN "" ELSE "base-model-changed"
    [] e.ev = "Nothing" -> IF e.trained THEN "trained-without-constraints" ELSE ""
    [] OTHER -> "unexpected-exception"
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN l' = l + 1 /\ err' = "" /\ st' = (IF ev[l].ev = "Iter" THEN [st EXCEPT !.iters = @ + 1] ELSE st)
              ELSE l' = l /\ err' = v /\ st' = st
         /\ UNCHANGED c
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
