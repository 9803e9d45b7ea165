---------------------------- MODULE BSDisp_Trace ----------------------------
EXTENDS TraceBase
VARIABLES c, l, err, st
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<c, l, err, st>>
TInit == c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ st = <<>>
NL == 4
RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)
Runs == 1..Len(st)
MaxOf(x, fld) == CHOOSE v \in {st[r].rows[x][fld] : r \in Runs} : \A r \in Runs : st[r].rows[x][fld] <= v
MinOf(x, fld) == CHOOSE v \in {st[r].rows[x][fld] : r \in Runs} : \A r \in Runs : st[r].rows[x][fld] >= v
Mean(x, fld, v) == Abs(Len(st) * v - SumF([r \in Runs |-> st[r].rows[x][fld]], Len(st))) <= 2 * Len(st)
Dropped(r) == \E x \in 1..Len(st[r].rows) : st[r].rows[x].drop < 0
Swapped(r) == \E d \in 1..NL : \E f \in 1..cfg.k : st[r].swap[d][f] > 0

(* Run: the displacement of bootstrap run e.key, and the one computed for it independently *)
RunVerdict(e) ==
  CASE e.key # Len(st) + 1 -> "one-displacement-per-run"
    [] e.dig # e.digRe -> "run-displaced-from-its-own-model"
    [] OTHER -> ""
TotSwap(d, f) == SumF([r \in Runs |-> st[r].swap[d][f]], Len(st))
TotCount(d, f) == SumF([r \in Runs |-> st[r].count[d][f]], Len(st))
CompiledVerdict(e) ==
  LET X == 1..Len(e.rows) IN
  CASE Len(st) # cfg.R -> "one-displacement-per-run"
    [] Len(e.rows) # NL * cfg.k * cfg.n -> "one-row-per-level-factor-feature"
    [] \E x \in X : e.rows[x].id # st[1].rows[x].id -> "one-row-per-level-factor-feature"
    [] \E x \in X : e.rows[x].pmax # MaxOf(x, "pmax") -> "profile-upper-limit"
    [] \E x \in X : e.rows[x].pmin # MinOf(x, "pmin") -> "profile-lower-limit"
    [] \E x \in X : ~Mean(x, "p", e.rows[x].p) -> "profile-mean"
    [] \E x \in X : e.rows[x].cmax # MaxOf(x, "cmax") -> "concentration-upper-limit"
    [] \E x \in X : e.rows[x].cmin # MinOf(x, "cmin") -> "concentration-lower-limit"
    [] \E x \in X : ~Mean(x, "c", e.rows[x].c) -> "concentration-mean"
    [] \E x \in X : e.rows[x].drop # MinOf(x, "drop") -> "loss-drop"
    [] e.drops # Cardinality({r \in Runs : Dropped(r)}) -> "runs-with-loss-drop"
    [] e.swaps # Cardinality({r \in Runs : Swapped(r)}) -> "runs-with-swap"
    [] e.fit # Cardinality({f \in 1..cfg.k : e.map[f] < cfg.R}) -> "best-fit-swaps"
    [] \E d \in 1..NL : \E f \in 1..cfg.k : e.swap[d][f] # TotSwap(d, f) \/ e.count[d][f] # TotCount(d, f) -> "swap-table"
    [] OTHER -> ""
ShownVerdict(e) ==
  CASE Len(e.rows) # NL \/ {e.rows[x].level : x \in 1..Len(e.rows)} # {cfg.levels[d] : d \in 1..NL} -> "swap-percentage-levels"
    [] \E x \in 1..NL : \E d \in 1..NL : /\ e.rows[x].level = cfg.levels[d]
         /\ \E f \in 1..cfg.k : Abs(e.rows[x].pct[f] * TotCount(d, f) - 10000 * TotSwap(d, f)) > TotCount(d, f) -> "swap-percentage"
    [] OTHER -> ""
Verdict(e) ==
  CASE e.ev = "Run"      -> RunVerdict(e)
    [] e.ev = "Compiled" -> CompiledVerdict(e)
    [] e.ev = "Shown"    -> ShownVerdict(e)
    [] e.ev = "Base"     -> IF e.before = e.after THEN "" ELSE "base-model-changed"
    [] e.ev = "Sched"    -> IF e.dig # e.ref THEN "compiled-depends-on-schedule"
                            ELSE IF e.runs # e.refRuns THEN "runs-depend-on-schedule" ELSE ""
    [] OTHER -> "unexpected-exception"
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN l' = l + 1 /\ err' = "" /\ st' = (IF ev[l].ev = "Run" THEN Append(st, ev[l]) ELSE st)
              ELSE l' = l /\ err' = v /\ st' = st
         /\ UNCHANGED c
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
