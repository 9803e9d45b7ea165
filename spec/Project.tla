------------------------------- MODULE Project -------------------------------
(* A project directory worked on with the command line.  Configurations are  *)
(* numbered; tables t say what the numbers mean where it matters here:       *)
(*   t.err[e] = [sel, con, boot]: selected model (-1 the best), whether the  *)
(*     constrained model is used, the project whose saved bootstrap BS-DISP  *)
(*     uses (0 none);  t.con[c] = selected model;  t.best[r] = best model    *)
(*   of the batch run with configuration r.                                  *)
(* What a command produces or shows is named by a key: which data, batch     *)
(* configuration, model, error or constrained configuration, items it is of. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names, RN, EN, CN, Simulated, Tab, MaxOps
VARIABLES p, q, last, ran, n
vars == <<p, q, last, ran, n>>

Omitted == 0 - 9
Methods == {"disp", "bs", "bsdisp"}
NoProduct == [x \in Names |-> <<>>]
Fresh == [sim |-> 0, batch |-> NoProduct, con |-> NoProduct, disp |-> NoProduct, bs |-> NoProduct, bsdisp |-> NoProduct, cmp |-> <<>>]

Sel(t, b, i) == IF i = 0 - 1 THEN t.best[b[2]] ELSE i
Generated(pp, qq, isSim) == IF isSim /\ pp.sim = 0 THEN [pp EXCEPT !.sim = qq.s] ELSE pp
AfterRun(t, pp, qq, isSim) == LET g == Generated(pp, qq, isSim) IN [g EXCEPT !.batch[qq.n] = <<g.sim, qq.r>>]
(* the model a constrained run and an error run work on                     *)
ConSubject(t, pp, qq) == LET b == pp.batch[qq.n] IN IF b = <<>> THEN <<>> ELSE b \o <<Sel(t, b, t.con[qq.c]), qq.c>>
AfterCon(t, pp, qq) == LET s == ConSubject(t, pp, qq) IN IF s = <<>> THEN pp ELSE [pp EXCEPT !.con[qq.n] = s]
ErrSubject(t, pp, qq) ==
  LET b == pp.batch[qq.n] IN
  IF t.err[qq.e].con THEN pp.con[qq.n] ELSE IF b = <<>> THEN <<>> ELSE b \o <<Sel(t, b, t.err[qq.e].sel), 0>>
AfterErr(t, pp, qq, S) ==
  LET s == ErrSubject(t, pp, qq)
      k == s \o <<qq.e>>
      p1 == IF "disp" \in S THEN [pp EXCEPT !.disp[qq.n] = k] ELSE pp
      p2 == IF "bs" \in S THEN [p1 EXCEPT !.bs[qq.n] = k] ELSE p1
      o == t.err[qq.e].boot
      used == IF o > 0 THEN p2.bs[o] ELSE IF "bs" \in S THEN p2.bs[qq.n] ELSE <<>>
  IN IF s = <<>> THEN pp ELSE IF "bsdisp" \in S THEN [p2 EXCEPT !.bsdisp[qq.n] = k \o used] ELSE p2
(* a configured bootstrap file must be there                                *)
BootReady(t, pp, qq, S) == LET o == t.err[qq.e].boot IN "bsdisp" \in S /\ o > 0 => pp.bs[o] # <<>> \/ ("bs" \in S /\ o = qq.n)
AfterCompare(t, pp, qq) == LET g == Generated(pp, qq, TRUE) IN IF pp.batch[qq.n] = <<>> THEN g ELSE [g EXCEPT !.cmp = g.batch[qq.n]]

(* what is shown.  Items left out are the first ones: features of the input  *)
(* and of a solution count from zero, factors and constrained features from  *)
(* one.                                                                      *)
D(x, d) == IF x = Omitted THEN d ELSE x
Items(kind, i, j) ==
  CASE kind \in {"sol.residuals", "sol.estimated", "sol.timeseries", "sol.contributions", "inp.feature", "inp.timeseries"} -> <<D(i, 0)>>
    [] kind = "inp.data" -> <<D(i, 0), D(j, 1)>>
    [] kind \in {"sol.profile", "err.results", "con.profile", "con.contributions"} -> <<D(i, 1)>>
    [] kind = "sol.gspace" -> <<D(i, 1), D(j, 2)>>
    [] kind = "con.gspace" -> <<D(i, 1), D(j, 2)>>
    [] kind = "sol.surface" -> <<D(i, 1), j>>
    [] kind = "con.q" -> <<D(i, 3)>>
    [] OTHER -> <<>>
SolKinds == {"sol.residuals", "sol.statistics", "sol.estimated", "sol.timeseries", "sol.profile", "sol.fingerprints", "sol.gspace",
             "sol.contributions", "sol.composition", "sol.surface"}
BatKinds == {"bat.loss", "bat.distribution"}
InpKinds == {"inp.metrics", "inp.feature", "inp.data", "inp.timeseries"}
ErrKinds == {"err.summary", "err.results"}
ConKinds == {"con.summary", "con.q", "con.constraints", "con.expressions", "con.profile", "con.fingerprints", "con.gspace", "con.contributions"}
Kinds == SolKinds \cup BatKinds \cup InpKinds \cup ErrKinds \cup ConKinds
Tag(S) == IF S = {"disp"} THEN <<1>> ELSE IF S = {"bs"} THEN <<2>> ELSE <<3>>
(* <<FALSE>>: nothing is shown, <<TRUE, key>> otherwise                      *)
Shown(t, pp, qq, kind, m, i, j, S) ==
  LET it == Items(kind, i, j)
      b == pp.batch[qq.n]
      Of(key) == IF key = <<>> THEN [some |-> FALSE, key |-> <<>>] ELSE [some |-> TRUE, key |-> key \o it] IN
  CASE kind \in SolKinds -> Of(IF b = <<>> THEN <<>> ELSE b \o <<Sel(t, b, D(m, 0 - 1))>>)
    [] kind \in BatKinds -> Of(b)
    [] kind \in InpKinds -> [some |-> TRUE, key |-> it]
    [] kind \in ErrKinds -> IF Cardinality(S) # 1 THEN [some |-> FALSE, key |-> <<>>]
                            ELSE LET k == pp[CHOOSE x \in S : TRUE][qq.n] IN Of(IF k = <<>> THEN <<>> ELSE Tag(S) \o k)
    [] kind \in ConKinds -> Of(pp.con[qq.n])
    [] kind = "estimate" -> [some |-> TRUE, key |-> <<qq.r>>]
    [] kind = "sim.plot" -> Of(pp.cmp)

------------------------------------------------------------------------------
Init == p = Fresh /\ q = [n |-> 1, r |-> 1, e |-> 1, c |-> 1, s |-> 1] /\ last = [op |-> "", key |-> [some |-> FALSE, key |-> <<>>]] /\ ran = {} /\ n = 0
Step(o, k) == n < MaxOps /\ n' = n + 1 /\ last' = [op |-> o, key |-> k]
None == [some |-> FALSE, key |-> <<>>]
Set == \E f \in {"n", "r", "e", "c", "s"}, v \in 1..3 :
         /\ v \in (CASE f = "n" -> Names [] f = "r" -> 1..RN [] f = "e" -> 1..EN [] f = "c" -> 1..CN [] OTHER -> 1..(IF Simulated THEN 2 ELSE 1))
         /\ q[f] # v /\ q' = [q EXCEPT ![f] = v] /\ Step("set", None) /\ UNCHANGED <<p, ran>>
Run == /\ p' = AfterRun(Tab, p, q, Simulated) /\ ran' = ran \cup {<<q.n, q.r>>} /\ Step("run", None) /\ UNCHANGED q
RunCon == p' = AfterCon(Tab, p, q) /\ Step("con", None) /\ UNCHANGED <<q, ran>>
RunErr == \E S \in SUBSET Methods : /\ S # {} /\ BootReady(Tab, p, q, S) /\ p' = AfterErr(Tab, p, q, S) /\ Step("err", None) /\ UNCHANGED <<q, ran>>
Generate == Simulated /\ p' = Generated(p, q, TRUE) /\ Step("generate", None) /\ UNCHANGED <<q, ran>>
Compare == Simulated /\ p' = AfterCompare(Tab, p, q) /\ Step("compare", None) /\ UNCHANGED <<q, ran>>
Show == \E k \in {"sol.profile", "bat.loss", "con.profile", "err.results", "inp.data"}, S \in SUBSET Methods, i \in {Omitted, 2}, m \in {Omitted, 0, 1} :
          /\ (k # "err.results" => S = {}) /\ (k # "sol.profile" => m = Omitted)
          /\ Step("show", Shown(Tab, p, q, k, m, i, Omitted, S)) /\ UNCHANGED <<p, q, ran>>
Next == Set \/ Run \/ RunCon \/ RunErr \/ Generate \/ Compare \/ Show
Spec == Init /\ [][Next]_vars

Products == {"batch", "con", "disp", "bs", "bsdisp"}
(* nothing comes from a batch that was never run under this name            *)
FromRuns == \A x \in Names, k \in Products : p[k][x] # <<>> => <<x, p[k][x][2]>> \in ran
(* what an error run of the constrained model is of is a constrained model  *)
Kinded == \A x \in Names, k \in {"disp", "bs", "bsdisp"} : p[k][x] # <<>> => (Tab.err[p[k][x][5]].con <=> p[k][x][4] # 0)
(* one simulated dataset for the whole project                               *)
OneSimulation == \A x \in Names : p.batch[x] # <<>> => p.batch[x][1] = p.sim
(* a bootstrap used by BS-DISP was once run                                  *)
Bootstrapped == \A x \in Names : Len(p.bsdisp[x]) \in {0, 5, 10}
Isolated == [][\A k \in Products, x \in Names : p'[k][x] # p[k][x] => x = q.n]_vars
ReadOnly == [][last'.op \in {"show", "set"} => p' = p]_vars
SimStays == [][p.sim # 0 => p'.sim = p.sim]_vars
OnlyKnown == last.key.some => last.op = "show"
View == <<p, q, last, ran, n>>
=============================================================================
