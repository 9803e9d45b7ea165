----------------------------- MODULE Project_Gen -----------------------------
(* Command histories for the replay.  A step first chooses the group of      *)
(* commands, then one of its commands; most figures are asked for when there *)
(* is something to show.                                                     *)
EXTENDS Project, TLC, Json
VARIABLES hist, g
gvars == <<vars, hist, g>>
GTab == [err |-> <<[sel |-> 0 - 1, con |-> FALSE, boot |-> 0], [sel |-> 0, con |-> TRUE, boot |-> 0], [sel |-> 1, con |-> FALSE, boot |-> 1]>>,
         con |-> <<0 - 1, 0>>, best |-> <<1, 0, 0>>]
O(o) == hist' = Append(hist, o @@ [op |-> "", f |-> "", v |-> 0, kind |-> "", m |-> Omitted, i |-> Omitted, j |-> Omitted, with |-> <<>>, live |-> FALSE])
Seqs == {<<"disp">>, <<"bs">>, <<"bsdisp">>, <<"bs", "bsdisp">>, <<"disp", "bs">>, <<"disp", "bs", "bsdisp">>}
Rng(w) == {w[x] : x \in 1..Len(w)}
Ms(k) == IF k \in SolKinds THEN {Omitted, 0, 1} ELSE {Omitted}
Some(k) == IF k \in ErrKinds THEN \E x \in Methods : p[x][q.n] # <<>> ELSE Shown(GTab, p, q, k, Omitted, Omitted, Omitted, {}).some
Sh(k, m, i, j, w) == O([op |-> "show", kind |-> k, m |-> m, i |-> i, j |-> j, with |-> w, live |-> Some(k)]) /\ UNCHANGED <<p, q, ran, last>> /\ n' = n + 1
Feats == {Omitted, 0, 1, 3}
Facts == {Omitted, 0, 1, 2, 5}
AnyShow(k) ==
  CASE k \in {"sol.residuals", "sol.estimated", "sol.timeseries", "sol.contributions", "inp.feature", "inp.timeseries"} -> \E m \in Ms(k), i \in Feats : Sh(k, m, i, Omitted, <<>>)
    [] k \in {"sol.profile", "con.profile", "con.contributions"} -> \E m \in Ms(k), i \in Facts : Sh(k, m, i, Omitted, <<>>)
    [] k \in {"sol.gspace", "con.gspace"} -> \E m \in Ms(k), i \in {Omitted, 1, 2}, j \in {Omitted, 1, 2} : Sh(k, m, i, j, <<>>)
    [] k = "inp.data" -> \E i \in Feats, j \in Feats : Sh(k, Omitted, i, j, <<>>)
    [] k = "sol.surface" -> \E m \in Ms(k), i \in {Omitted, 2, 0 - 1}, j \in {0, 1, 24} : Sh(k, m, i, j, <<>>)
    [] k = "con.q" -> \E i \in {Omitted, 1, 2, 3} : Sh(k, Omitted, i, Omitted, <<>>)
    [] k = "err.summary" -> \E w \in Seqs \cup {<<>>} : Sh(k, Omitted, Omitted, Omitted, w)
    [] k = "err.results" -> \E w \in Seqs \cup {<<>>}, i \in {Omitted, 1, 2, 3} : Sh(k, Omitted, i, Omitted, w)
    [] OTHER -> \E m \in Ms(k) : Sh(k, m, Omitted, Omitted, <<>>)
ErrShow == \E x \in Methods, i \in {Omitted, 1, 2}, k \in ErrKinds : p[x][q.n] # <<>> /\ (k = "err.summary" => i = Omitted) /\ Sh(k, Omitted, i, Omitted, <<x>>)
GSet(F) == \E f \in F, v \in 1..3 :
         /\ v \in (CASE f = "n" -> Names [] f = "r" -> 1..RN [] f = "e" -> 1..EN [] f = "c" -> 1..CN [] OTHER -> 1..(IF Simulated THEN 2 ELSE 1))
         /\ q[f] # v /\ q' = [q EXCEPT ![f] = v] /\ O([op |-> "set", f |-> f, v |-> v]) /\ n' = n + 1 /\ UNCHANGED <<p, ran, last>>
GRun == p' = AfterRun(GTab, p, q, Simulated) /\ O([op |-> "run"]) /\ n' = n + 1 /\ UNCHANGED <<q, ran, last>>
GCon == p' = AfterCon(GTab, p, q) /\ O([op |-> "con"]) /\ n' = n + 1 /\ UNCHANGED <<q, ran, last>>
GErr(W) == \E w \in W : BootReady(GTab, p, q, Rng(w)) /\ p' = AfterErr(GTab, p, q, Rng(w)) /\ O([op |-> "err", with |-> w]) /\ n' = n + 1 /\ UNCHANGED <<q, ran, last>>
GSim == Simulated /\ p' = Generated(p, q, TRUE) /\ O([op |-> "generate"]) /\ n' = n + 1 /\ UNCHANGED <<q, ran, last>>
GCmp == Simulated /\ p' = AfterCompare(GTab, p, q) /\ O([op |-> "compare"]) /\ n' = n + 1 /\ UNCHANGED <<q, ran, last>>
HasBatch == p.batch[q.n] # <<>>
Groups == {"set", "run", "con", "err", "sol", "bat", "inp", "errs", "cons", "missing", "sim", "simshow", "est"}
Enabled(x) ==
  CASE x = "set" -> TRUE
    [] x = "run" -> TRUE
    [] x \in {"con", "err", "sol", "bat"} -> HasBatch
    [] x \in {"errs"} -> \E y \in Methods : p[y][q.n] # <<>>
    [] x = "cons" -> p.con[q.n] # <<>>
    [] x = "inp" -> Simulated => p.sim # 0
    [] x = "missing" -> \E k \in Kinds : ~Some(k)
    [] x = "sim" -> Simulated
    [] x = "simshow" -> Simulated /\ p.cmp # <<>>
    [] x = "est" -> n = MaxOps - 1 /\ (Simulated => p.sim # 0)
Now == IF n = 0 THEN {"set", "run", "sim"} ELSE IF n = 1 THEN {"run"} ELSE IF n = 3 /\ HasBatch THEN {"con", "err"} ELSE IF n = MaxOps - 1 THEN {"est", "sol"} ELSE Groups
Choose == /\ n < MaxOps /\ g = "" /\ \E x \in Now : Enabled(x) /\ g' = x
          /\ UNCHANGED <<vars, hist>>
Act(x) ==
  CASE x = "set" -> GSet({"n", "r", "e", "c", "s"})
    [] x = "run" -> GRun
    [] x = "con" -> GCon
    [] x = "err" -> GErr(IF n % 5 = 4 THEN {<<>>} ELSE Seqs)
    [] x = "errs" -> ErrShow
    [] x \in Kinds -> AnyShow(x)
    [] x = "sim" -> GSim \/ GCmp
    [] x = "simshow" -> Sh("sim.plot", Omitted, Omitted, Omitted, <<>>)
    [] x = "est" -> Sh("estimate", Omitted, Omitted, Omitted, <<>>)
(* a group of figures: one of its commands, then what it is asked           *)
OfGroup(x) == CASE x = "sol" -> SolKinds [] x = "bat" -> BatKinds [] x = "inp" -> InpKinds [] x = "cons" -> ConKinds
                [] x = "missing" -> {k \in Kinds : ~Some(k)} [] OTHER -> {}
Pick == OfGroup(g) # {} /\ g' \in OfGroup(g) /\ UNCHANGED <<vars, hist>>
Do == g # "" /\ g # "end" /\ OfGroup(g) = {} /\ Act(g) /\ g' = ""
(* a command whose configured bootstrap is missing is not asked for         *)
Skip == g = "err" /\ ~(\E w \in Seqs : BootReady(GTab, p, q, Rng(w))) /\ g' = "" /\ UNCHANGED <<vars, hist>>
End == n = MaxOps /\ g = "" /\ g' = "end" /\ UNCHANGED <<vars, hist>>
GenNext == Choose \/ Pick \/ Do \/ Skip \/ End
GenSpec == Init /\ hist = <<>> /\ g = "" /\ [][GenNext]_gvars
Emit == g = "end" => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
