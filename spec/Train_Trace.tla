----------------------------- MODULE Train_Trace -----------------------------
(* Recorded trainings.  cfg: [n, delta, maxIter, tol]; losses are logged in *)
(* units with rounding error tol, so a drop within tol of the threshold may *)
(* go either way; everywhere else the loop must do what Iterate says.       *)
EXTENDS Train, TraceBase
VARIABLES c, l, err

cfg == Cases[c].cfg
ev  == Cases[c].ev

tvars == <<st, par, c, l, err>>

TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = ""
         /\ st = TrainInit
         /\ par = [n |-> Cases[c].cfg.n, delta |-> Cases[c].cfg.delta,
                   maxIter |-> Cases[c].cfg.maxIter]

Q(e) == IF e.nan THEN NaNQ ELSE e.q
After(e, d) == Iterate(st, Q(e), par.n, d, par.maxIter)
(* The two decisions a rounded loss allows.                                 *)
Lo(e) == After(e, par.delta - cfg.tol)
Hi(e) == After(e, par.delta + cfg.tol)

(* e.last: the recorded list ends here.  A loop that goes on must be in an  *)
(* undecided state and one that stops must be allowed to.                   *)
IterVerdict(e) ==
  CASE st.done -> "iterates-after-stop"
    [] Len(st.hist) >= par.maxIter -> "more-than-max-iterations"
    [] ~e.last /\ Lo(e).done /\ Hi(e).done ->
         (IF e.nan THEN "continues-after-nan"
          ELSE IF Lo(e).converged THEN "misses-convergence" ELSE "more-than-max-iterations")
    [] e.last /\ ~Lo(e).done /\ ~Hi(e).done -> "stops-too-early"
    [] OTHER -> ""

NextSt(e) == IF e.last = Lo(e).done THEN Lo(e) ELSE Hi(e)

EndVerdict(e) ==
  CASE ~st.done -> "stops-too-early"
    [] e.iters # Len(st.hist) -> "loss-list-length"
    [] e.converged /\ ~(st.converged \/ st.ambiguous) -> "reports-false-convergence"
    [] ~e.converged /\ st.converged /\ ~st.ambiguous -> "convergence-not-reported"
    [] e.steps # (IF e.converged \/ st.bad THEN Len(st.hist) - 1 ELSE Len(st.hist))
         -> "wrong-number-of-steps"
    [] OTHER -> ""

Verdict(e) == CASE e.ev = "Iter" -> IterVerdict(e)
                [] e.ev = "End"  -> EndVerdict(e)
                [] OTHER -> "unexpected-exception"

Apply(e) == IF e.ev = "Iter"
            THEN [x \in {"ambiguous"} |-> Lo(e).converged # Hi(e).converged] @@ NextSt(e)
            ELSE st

TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN st' = Apply(ev[l]) /\ l' = l + 1 /\ err' = ""
              ELSE st' = st /\ l' = l /\ err' = v
         /\ UNCHANGED <<par, c>>
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
