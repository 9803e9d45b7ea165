---------------------------- MODULE Project_Trace ----------------------------
EXTENDS Project, TraceBase
VARIABLES c, l, err
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err>>
Sim == cfg.simulated
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ ran = {} /\ n = 0 /\ last = <<>>
         /\ p = Fresh /\ q = [n |-> 1, r |-> 1, e |-> 1, c |-> 1, s |-> 1]
Rng(w) == {w[x] : x \in 1..Len(w)}
NextQ(e) == IF e.ev = "set" THEN [q EXCEPT ![e.f] = e.v] ELSE q
NextP(e) == CASE e.ev = "run" -> AfterRun(cfg, p, q, Sim)
              [] e.ev = "con" -> AfterCon(cfg, p, q)
              [] e.ev = "err" -> AfterErr(cfg, p, q, Rng(e.with))
              [] e.ev = "generate" -> Generated(p, q, Sim)
              [] e.ev = "compare" -> AfterCompare(cfg, p, q)
              [] OTHER -> p
(* the files a command writes                                               *)
NewSim == IF Sim /\ p.sim = 0 THEN {<<"sim", 0>>} ELSE {}
Written(e) ==
  CASE e.ev = "run" -> NewSim \cup {<<"batch", q.n>>}
    [] e.ev = "con" -> IF ConSubject(cfg, p, q) = <<>> THEN {} ELSE {<<"con", q.n>>}
    [] e.ev = "err" -> IF ErrSubject(cfg, p, q) = <<>> THEN {} ELSE {<<k, q.n>> : k \in Rng(e.with)}
    [] e.ev = "generate" -> NewSim
    [] e.ev = "compare" -> IF Sim /\ (p.sim = 0 \/ p.batch[q.n] # <<>>) THEN {<<"sim", 0>>} ELSE {}
    [] OTHER -> {}
(* an estimate of a simulated project generates the data too                *)
Updated(e) == {<<u.k, u.x>> : u \in Rng(e.updated)}
Key(pp, u) == IF u.k = "sim" THEN <<pp.sim>> ELSE pp[u.k][u.x]
Verdict(e) ==
  CASE e.ev = "set" -> ""
    [] e.ev = "setup" -> IF ~e.only THEN "setup-changes-other-files" ELSE IF ~e.same THEN "setup-writes-the-defaults" ELSE ""
    [] e.ev \in {"run", "con", "err", "generate", "compare"} ->
       IF Written(e) \ Updated(e) # {} THEN "result-not-saved"
       ELSE IF Updated(e) \ Written(e) # {} THEN "other-results-changed"
       ELSE IF \E u \in Rng(e.updated) : ~(Key(NextP(e), u) \in Rng(u.pkl)) THEN "saved-result-differs-from-its-configuration"
       ELSE IF \E u \in Rng(e.updated) : ~(Key(NextP(e), u) \in Rng(u.txt)) THEN "saved-files-differ-from-their-configuration"
       ELSE ""
    [] e.ev = "show" ->
       LET w == Shown(cfg, p, q, e.kind, e.m, e.i, e.j, Rng(e.with)) IN
       IF e.updated # <<>> THEN "showing-changes-results"
       ELSE IF ~w.some /\ e.any THEN "shows-what-does-not-exist"
       ELSE IF w.some /\ ~(w.key \in Rng(e.keys)) THEN "shows-something-else"
       ELSE ""
    [] OTHER -> "unexpected-exception"
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN l' = l + 1 /\ err' = "" /\ p' = NextP(ev[l]) /\ q' = NextQ(ev[l])
              ELSE l' = l /\ err' = v /\ UNCHANGED <<p, q>>
         /\ UNCHANGED <<c, last, ran, n>>
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
