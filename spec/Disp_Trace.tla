----------------------------- MODULE Disp_Trace -----------------------------
(* Judges recorded displacement runs.  cfg: k factors, n features, sel the  *)
(* selected features, levels and thr in units of 1e-3, max the search depth.*)
EXTENDS TraceBase
VARIABLES c, l, err, st
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<c, l, err, st>>
NL == 4
Zeros == [d \in 1..NL |-> [f \in 1..20 |-> 0]]
TInit == c \in 1..Len(Cases) /\ l = 1 /\ err = ""
         /\ st = [cells |-> <<>>, swap |-> Zeros, count |-> Zeros, rows |-> <<>>]

Rel(a, b, d) == Abs(a - b) <= 2 + Abs(b) \div d
Deep == cfg.max >= 40
InBand(e, d) == /\ e.lv[d].dq <= cfg.levels[d] + e.tol
                /\ e.lv[d].dq >= cfg.levels[d] - cfg.thr - e.tol
SwapTrue(m)  == \E i, j \in 1..Len(m) : m[i][j] > m[i][i] + 2
SwapMaybe(m) == \E i, j \in 1..Len(m) : i # j /\ m[i][j] > m[i][i] - 2

(* Cell: one direction of one profile value, all levels.                    *)
(* ratio: limit/base in 1e-6; dq: rise recomputed from the limit, 1e-3;     *)
(* zero: rise at zero; flat: the factor contributes nothing; o, v: the other*)
(* values of the column and the limit in a common unit.                     *)
CellVerdict(e) ==
  LET up == e.dir = "up" IN
  CASE Len(e.lv) # NL -> "every-level-searched"
    [] \E d \in 1..NL : IF up THEN e.lv[d].ratio < 999999 ELSE e.lv[d].ratio > 1000001 -> "limit-brackets-base"
    [] \E d \in 1..NL : e.lv[d].ratio < 0 -> "limit-negative"
    [] \E d \in 1..NL : e.lv[d].steps > cfg.max -> "search-depth"
    [] \E d \in 1..NL : Abs(e.lv[d].rep - e.lv[d].dq) > e.tol -> "reported-rise"
    [] up /\ ~e.flat /\ \E d \in 1..NL : (Deep \/ e.lv[d].steps < cfg.max) /\ ~InBand(e, d) -> "upper-limit-at-level"
    [] ~up /\ \E d \in 1..NL : /\ e.zero > cfg.levels[d] + e.tol /\ (Deep \/ e.lv[d].steps < cfg.max)
                               /\ ~InBand(e, d) -> "lower-limit-at-level"
    [] ~up /\ \E d \in 1..NL : /\ e.zero < cfg.levels[d] - cfg.thr - e.tol /\ (Deep \/ e.lv[d].steps < cfg.max)
                               /\ e.lv[d].ratio > 1 -> "lower-limit-is-zero"
    [] \E d1, d2 \in 1..NL : /\ d1 < d2 /\ InBand(e, d1) /\ InBand(e, d2) /\ 2 * e.tol < cfg.gap
                             /\ IF up THEN e.lv[d1].ratio < e.lv[d2].ratio ELSE e.lv[d1].ratio > e.lv[d2].ratio
         -> "intervals-nested"
    [] \E d \in 1..NL : Abs(e.lv[d].pct * (e.lv[d].o + e.lv[d].v) - 10000 * e.lv[d].v) > 2 * (e.lv[d].o + e.lv[d].v) + 20000
         -> "limit-as-share-of-feature"
    [] \E d \in 1..NL : ~Rel(e.lv[d].concRatio, e.lv[d].ratio, 10000) -> "limit-as-concentration"
    [] \E d \in 1..NL : IF e.lv[d].swap THEN ~SwapMaybe(e.lv[d].r2) ELSE SwapTrue(e.lv[d].r2) -> "swap-detected"
    [] \E d \in 1..NL : Abs(e.lv[d].drop - e.lv[d].dropRe) > e.tol + Abs(e.lv[d].dropRe) \div 100000 -> "loss-drop-of-refit"
    [] \E x \in 1..Len(st.cells) : st.cells[x].dir = e.dir /\ st.cells[x].i = e.i /\ st.cells[x].j = e.j -> "cell-once"
    [] e.j \notin {cfg.sel[x] : x \in 1..Len(cfg.sel)} -> "only-selected-features"
    [] OTHER -> ""
AddCell(e) == [st EXCEPT !.cells = Append(@, e),
  !.count = [d \in 1..NL |-> [@[d] EXCEPT ![e.i] = @ + 1]],
  !.swap  = [d \in 1..NL |-> IF e.lv[d].swap THEN [@[d] EXCEPT ![e.i] = @ + 1] ELSE @[d]]]

Cell(dir, i, j) == st.cells[CHOOSE x \in 1..Len(st.cells) : st.cells[x].dir = dir /\ st.cells[x].i = i /\ st.cells[x].j = j]
Neg(x) == IF x < 0 THEN x ELSE 0

(* Rows: the compiled table, in any row order.                              *)
RowVerdict(r) ==
  IF r.j \in {cfg.sel[x] : x \in 1..Len(cfg.sel)}
  THEN LET u == Cell("up", r.i, r.j).lv[r.d]
           w == Cell("down", r.i, r.j).lv[r.d]
       IN CASE r.pmax # u.pct6 \/ r.pmin # w.pct6 -> "row-profile-limits"
            [] r.p > r.pmax + 2 \/ r.p < r.pmin - 2 -> "row-base-inside-limits"
            [] ~Rel(r.cmax, Max2(u.conc, r.floor), 100000) \/ ~Rel(r.cmin, Max2(w.conc, r.floor), 100000) -> "row-concentration-limits"
            [] r.drop # Neg(Min2(u.drop, w.drop)) -> "row-loss-drop"
            [] OTHER -> ""
  ELSE CASE r.pmax # r.p \/ r.pmin # r.p -> "unselected-keeps-base"
         [] ~Rel(r.cmax, Max2(r.c, r.floor), 100000) \/ ~Rel(r.cmin, Max2(r.c, r.floor), 100000) -> "unselected-keeps-base"
         [] r.drop # 0 -> "unselected-keeps-base"
         [] OTHER -> ""
RowsVerdict(e) ==
  LET bad == {x \in 1..Len(e.rows) : RowVerdict(e.rows[x]) # ""} IN
  CASE Len(e.rows) # NL * cfg.k * cfg.n -> "one-row-per-level-factor-feature"
    [] Cardinality({<<e.rows[x].d, e.rows[x].i, e.rows[x].j>> : x \in 1..Len(e.rows)}) # NL * cfg.k * cfg.n
         -> "one-row-per-level-factor-feature"
    [] Len(st.cells) # 2 * cfg.k * Len(cfg.sel) -> "every-selected-cell-searched"
    [] bad # {} -> RowVerdict(e.rows[CHOOSE x \in bad : \A y \in bad : x <= y])
    [] \E x \in 1..Len(e.rows) : Abs(e.rows[x].p - e.rows[x].pRe) > 2 \/ ~Rel(e.rows[x].c, e.rows[x].cRe, 100000) -> "row-base-values"
    [] OTHER -> ""

TablesVerdict(e) ==
  CASE \E d \in 1..NL : \E f \in 1..cfg.k : e.count[d][f] # st.count[d][f] -> "count-table"
    [] \E d \in 1..NL : \E f \in 1..cfg.k : e.swap[d][f] # st.swap[d][f] -> "swap-table"
    [] OTHER -> ""
(* a displayed or saved swap table: rows [level, percentage...] in 1e-3, 1e-2 *)
ShownVerdict(e) ==
  CASE Len(e.rows) # NL \/ {e.rows[x].level : x \in 1..Len(e.rows)} # {cfg.levels[d] : d \in 1..NL} -> "swap-percentage-levels"
    [] \E x \in 1..NL : \E d \in 1..NL : /\ e.rows[x].level = cfg.levels[d]
         /\ \E f \in 1..cfg.k : Abs(e.rows[x].pct[f] * st.count[d][f] - 10000 * st.swap[d][f]) > st.count[d][f]
         -> "swap-percentage"
    [] OTHER -> ""
Verdict(e) ==
  CASE e.ev = "Cell"   -> CellVerdict(e)
    [] e.ev = "Rows"   -> RowsVerdict(e)
    [] e.ev = "Tables" -> TablesVerdict(e)
    [] e.ev = "Shown"  -> ShownVerdict(e)
    [] e.ev = "Base"   -> IF e.before = e.after THEN "" ELSE "base-model-changed"
    (* Sched: the same run under another schedule or execution mode          *)
    [] e.ev = "Sched"  -> IF e.rows # e.ref THEN "compiled-depends-on-schedule"
                          ELSE IF e.swap # e.refSwap \/ e.count # e.refCount THEN "swaps-depend-on-schedule"
                          ELSE IF e.results # e.refResults THEN "results-depend-on-schedule" ELSE ""
    [] OTHER -> "unexpected-exception"
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN l' = l + 1 /\ err' = "" /\ st' = (IF ev[l].ev = "Cell" THEN AddCell(ev[l]) ELSE st)
              ELSE l' = l /\ err' = v /\ st' = st
         /\ UNCHANGED c
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
