----------------------------- MODULE Batch_Trace -----------------------------
(* Recorded batches.  cfg: check ("P05" or "P06"), n.  Alone events give    *)
(* what each model is when trained by itself: seed, digest of everything it *)
(* holds, and the ranks of its losses; Run events what the batch returned.  *)
EXTENDS Batch, TraceBase
VARIABLES c, l, err, alone
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err, alone>>
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ alone = <<>>
         /\ n = 0 /\ loss = <<>> /\ fails = {} /\ arrived = <<>> /\ results = <<>> /\ outcome = <<>>

Loss(e, i) == IF e.robust THEN alone[i].qr ELSE alone[i].qt
RunVerdict05(e) ==
  CASE ~e.ok -> "batch-failed"
    [] Len(e.models) # cfg.n -> "one-result-per-model"
    [] \E i \in 1..cfg.n : e.models[i].num # i -> "results-in-order"
    [] \E i \in 1..cfg.n : e.models[i].seed # alone[i].seed -> "seed-sequence"
    [] \E i \in 1..cfg.n : e.models[i].opts # alone[i].opts -> "training-options"
    [] \E i \in 1..cfg.n : e.models[i].dig # alone[i].dig -> "same-as-trained-alone"
    [] OTHER -> ""
RunVerdict06(e) ==
  CASE e.mustFail /\ e.ok -> "failure-not-reported"
    [] e.mustFail /\ ~e.msg -> "failure-without-message"
    [] ~e.mustFail /\ ~e.ok -> "batch-failed"
    [] ~e.mustFail /\ e.msg -> "success-with-message"
    [] ~e.mustFail /\ LET q == [i \in 1..Len(e.models) |-> IF e.robust THEN e.models[i].qr ELSE e.models[i].qt]
                      IN BestOf(q) # 0 /\ e.best # BestOf(q) - 1 -> "best-has-lowest-loss"
    [] OTHER -> ""
LimitVerdict(e) ==
  CASE e.trained # Trained(e.secs, e.limit) -> "time-limit-stops-the-run"
    [] e.ok # (Slow(e.secs, e.limit) = {}) -> "time-limit-not-reported"
    [] e.msg # ~e.ok -> "time-limit-message"
    [] OTHER -> ""
Agree(a, b) == /\ Len(a) = Len(b)
               /\ \A i \in 1..Len(a) : a[i].txt = b[i].txt /\ Len(a[i].num) = Len(b[i].num)
                     /\ \A x \in 1..Len(a[i].num) : Abs(a[i].num[x] - b[i].num[x]) <= 1 + (b[i].num[x] \div 100000)
LogVerdict(e) ==
  CASE ~Agree(e.rows, e.want) -> "log-shows-each-model"
    [] ~Agree(e.best, e.wantBest) -> "log-shows-the-best-model"
    [] OTHER -> ""
Verdict(e) == CASE e.ev = "Alone" -> ""
                [] e.ev = "Limit" -> LimitVerdict(e)
                [] e.ev = "Log"   -> LogVerdict(e)
                [] e.ev = "Run"   -> IF cfg.check = "P05" THEN RunVerdict05(e) ELSE RunVerdict06(e)
                [] OTHER -> "unexpected-exception"
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN /\ l' = l + 1 /\ err' = ""
                             /\ alone' = IF ev[l].ev = "Alone" THEN Append(alone, ev[l]) ELSE alone
              ELSE l' = l /\ err' = v /\ alone' = alone
         /\ UNCHANGED <<vars, c>>
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
