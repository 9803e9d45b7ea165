----------------------------- MODULE DataH_Trace -----------------------------
(* st maps the name of every handler of the case to its columns, excluded   *)
(* columns, loaded samples and categories.                                  *)
EXTENDS DataH, TraceBase
VARIABLES c, l, err, st
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err, st>>
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ st = <<>>
         /\ rows = <<>> /\ cat = <<>> /\ mats = <<>> /\ ops = 0
Range(s) == {s[i] : i \in 1..Len(s)}
AllStrong(names) == [j \in 1..Len(names) |-> "strong"]
Labs(q) == [i \in 1..Len(q) |-> q[i].lab]
LoadOf(e) == [names |-> e.names, text |-> Range(e.text), out |-> Range(e.out), rows |-> Loaded(e.raw), cat |-> AllStrong(e.names)]
PartName(h, x) == h \o "." \o ToString(x)
Relabel(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.lab = i - 1]]
MergedRows(e) == Relabel(Merge([x \in 1..Len(e.from) |-> st[e.from[x]].rows], st[e.h].rows))
MergeOk(e) == /\ Len(e.from) > 0 /\ Len(e.from) = Len(e.labels)
              /\ \A x \in 1..Len(e.from) : st[e.from[x]].names = st[e.h].names
NextSt(e) ==
  CASE e.ev = "Load" -> (e.h :> LoadOf(e)) @@ st
    [] e.ev = "Set" -> [st EXCEPT ![e.h].cat = SetCat(st[e.h].names, @, e.f, e.c)]
    [] e.ev = "Split" -> [n \in {PartName(e.h, x) : x \in 1..Len(e.parts)} |->
          LET x == CHOOSE x \in 1..Len(e.parts) : PartName(e.h, x) = n IN
            [names |-> st[e.h].names, text |-> st[e.h].text, out |-> st[e.h].out, rows |-> Split(st[e.h].rows)[x], cat |-> AllStrong(st[e.h].names)]] @@ st
    [] e.ev = "Merge" -> IF MergeOk(e) THEN [st EXCEPT ![e.h].rows = MergedRows(e)] ELSE st
    [] OTHER -> st

(* The recorded matrices: an exact zero is -1, a tiny positive value 0.     *)
GetVerdict(e) ==
  LET s == st[e.h]
      cols == Modelled(s.names, s.out, s.cat)
      use == Usable(s.rows, cols)
  IN CASE e.features # [j \in 1..Len(cols) |-> s.names[cols[j]]] -> "modelled-features"
       [] e.labs # Labs(use) -> "samples-of-data"
       [] e.labsU # Labs(use) -> "samples-of-uncertainty"
       [] e.V # ProcV(s.rows, cols) -> "data-values"
       [] e.U # ProcU(s.rows, cols, s.cat) -> "uncertainty-values"
       [] e.dfV # ProcV(s.rows, cols) -> "data-frame"
       [] e.dfU # ProcU(s.rows, cols, s.cat) -> "uncertainty-frame"
       [] e.before # e.after -> "loaded-data-changed"
       [] OTHER -> ""
Cats1(names, k) == {<<names[j], k[j]>> : j \in 1..Len(names)}
SetVerdict(e) ==
  LET s == st[e.h] IN
  CASE e.ok # (Ok(s.names, e.f, e.c) /\ e.f \notin s.text) -> IF e.ok THEN "invalid-request-accepted" ELSE "valid-request-refused"
    [] Len(e.cats) # Len(s.names) - Cardinality(s.text) -> "table-lists-each-feature-once"
    [] {<<e.cats[x][1], e.cats[x][2]>> : x \in 1..Len(e.cats)}
         # {x \in Cats1(s.names, SetCat(s.names, s.cat, e.f, e.c)) : x[1] \notin s.text} -> "category-table"
    [] e.before # e.after -> "loaded-data-changed"
    [] OTHER -> ""
(* Summary of the loaded values of a column: quantiles in quarters.         *)
Present(q, j) == SelectSeq([i \in 1..Len(q) |-> q[i].v[j]], LAMBDA x : x # NA)
Quart(s, k) == LET p == k * (Len(s) - 1)
                   lo == (p \div 4) + 1
                   hi == Min2(lo + 1, Len(s))
               IN 4 * s[lo] + (p % 4) * (s[hi] - s[lo])
RECURSIVE SumS(_, _, _)
SumS(q, j, i) == IF i > Len(q) THEN 0
  ELSE (IF q[i].v[j] = NA \/ q[i].u[j] = NA \/ q[i].v[j] <= q[i].u[j] THEN 0
        ELSE ((q[i].v[j] - q[i].u[j]) * 10000) \div q[i].u[j]) + SumS(q, j, i + 1)
ZeroU(q, j) == \E i \in 1..Len(q) : q[i].v[j] # NA /\ q[i].u[j] = 0 /\ q[i].v[j] > 0
SummaryOk(q, j, m) ==
  LET p == Present(q, j)
      s == SortSeq(p, <)
  IN p = <<>> \/ /\ m.q = [k \in 1..5 |-> Quart(s, k - 1)]
                 /\ m.lo = 4 * s[1] /\ m.hi = 4 * s[Len(s)]
                 /\ IF ZeroU(q, j) THEN m.sn = Sat ELSE Abs(m.sn - (SumS(q, j, 1) \div Len(q))) <= 3
Col(names, n) == CHOOSE j \in 1..Len(names) : names[j] = n
LoadVerdict(e) ==
  LET s == LoadOf(e) IN
  CASE e.labs # Labs(s.rows) \/ e.labsU # Labs(s.rows) -> "loaded-samples"
    [] e.argBefore # e.argAfter -> "arguments-changed"
    [] Len(e.table) # Len(s.names) - Len(e.text)
         \/ {e.table[x].n : x \in 1..Len(e.table)} # Range(s.names) \ Range(e.text) -> "table-lists-each-feature-once"
    [] \E x \in 1..Len(e.table) : e.table[x].cat # "strong" -> "initial-category"
    [] \E x \in 1..Len(e.table) : ~SummaryOk(s.rows, Col(s.names, e.table[x].n), e.table[x]) -> "feature-summary"
    [] OTHER -> ""
SplitVerdict(e) ==
  LET q == Split(st[e.h].rows) IN
  CASE Len(e.parts) # Len(q) -> "one-handler-per-location"
    [] \E x \in 1..Len(q) : e.parts[x].labs # Labs(q[x]) \/ e.parts[x].labsU # Labs(q[x]) -> "samples-of-location"
    [] \E x \in 1..Len(q) : e.parts[x].loc # q[x][1].loc -> "location-of-part"
    [] e.before # e.after -> "loaded-data-changed"
    [] OTHER -> ""
RECURSIVE Rep(_, _)
Rep(x, k) == IF k = 0 THEN <<>> ELSE <<x>> \o Rep(x, k - 1)
RECURSIVE SLabels(_, _, _)
SLabels(e, x, dummy) == IF x > Len(e.from) THEN Rep("self", Len(st[e.h].rows))
                 ELSE Rep(e.labels[x], Len(st[e.from[x]].rows)) \o SLabels(e, x + 1, dummy)
MergeVerdict(e) ==
  CASE e.ok # MergeOk(e) -> IF e.ok THEN "invalid-merge-accepted" ELSE "valid-merge-refused"
    [] ~MergeOk(e) /\ e.before # e.after -> "refused-merge-changed-data"
    [] MergeOk(e) /\ e.sources # SLabels(e, 1, 0) -> "source-labels"
    [] e.othersBefore # e.othersAfter -> "merged-handlers-changed"
    [] OTHER -> ""
Verdict(e) ==
  CASE e.ev = "Load" -> LoadVerdict(e)
    [] e.ev = "Set" -> SetVerdict(e)
    [] e.ev = "Get" -> GetVerdict(e)
    [] e.ev = "Split" -> SplitVerdict(e)
    [] e.ev = "Merge" -> MergeVerdict(e)
    [] e.ev = "Files" -> IF e.end = (IF e.missing THEN "exit" ELSE "built") THEN "" ELSE "missing-file-ends-the-program"
    [] e.ev = "Refused" -> IF e.parts = 0 THEN "" ELSE "split-without-locations"
    [] OTHER -> "unexpected-exception"
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN l' = l + 1 /\ err' = "" /\ st' = NextSt(ev[l]) ELSE l' = l /\ err' = v /\ st' = st
         /\ UNCHANGED <<vars, c>>
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
==============================================================================
