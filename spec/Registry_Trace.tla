--------------------------- MODULE Registry_Trace ---------------------------
EXTENDS Registry, TraceBase
VARIABLES c, l, err, reg, xs
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err, reg, xs>>
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ reg = <<>> /\ xs = <<>>
         /\ cons = <<>> /\ exprs = <<>> /\ n = 0 /\ hist = <<>>
Range(s) == {s[i] : i \in 1..Len(s)}
Req(e) == [e.req EXCEPT !.given = Range(@)]
Ok(e) == Accepts(reg, Req(e), cfg.m, cfg.n, cfg.k)
NextReg(e) == CASE e.op = "add" /\ Ok(e) -> AddTo(reg, [Req(e) EXCEPT !.given = e.vals])
                [] e.op = "remove" -> Without(reg, <<e.elem[1], e.elem[2], e.elem[3]>>)
                [] OTHER -> reg
NextXs(e) == CASE e.op = "addexpr" -> Append(xs, e.x) [] e.op = "removeexpr" -> DropAt(xs, e.i) [] OTHER -> xs
Vals(r) == CASE r.type \in {"pull down", "pull up"} -> <<r.given.dQ>>
             [] r.type = "pull to value" -> <<r.given.target, r.given.dQ>>
             [] r.type = "define limits" -> <<r.given.min, r.given.max>>
             [] OTHER -> <<>>
Expected(rg) == {[target |-> e[1], i |-> e[2], j |-> e[3], type |-> rg[e].type, vals |-> Vals(rg[e])] : e \in DOMAIN rg}
Verdict(e) ==
  CASE e.ev # "Edit" -> "unexpected-exception"
    [] e.op = "add" /\ Ok(e) /\ ~e.ok -> "valid-request-refused"
    [] e.op = "add" /\ ~Ok(e) /\ e.ok -> "invalid-request-accepted"
    [] e.op = "addexpr" /\ ~e.ok -> "expression-refused"
    [] Range(e.active) # Expected(NextReg(e)) -> "active-constraints"
    [] Len(e.active) # Cardinality(DOMAIN NextReg(e)) -> "one-constraint-per-element"
    [] e.exprs # NextXs(e) -> "active-expressions"
    [] Range(e.labels) # {IF d[1] = "feature" THEN <<"feature", d[2], d[3]>> ELSE <<"sample", d[3], d[2]>> : d \in DOMAIN NextReg(e)}
         -> "constraint-labels"
    [] OTHER -> ""
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN l' = l + 1 /\ err' = "" /\ reg' = NextReg(ev[l]) /\ xs' = NextXs(ev[l])
              ELSE l' = l /\ err' = v /\ UNCHANGED <<reg, xs>>
         /\ UNCHANGED <<vars, c>>
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
