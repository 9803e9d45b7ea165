---------------------------- MODULE BootMap_Trace ----------------------------
EXTENDS BootMap, TraceBase
VARIABLES c, l, err, st
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err, st>>
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ st = [runs |-> <<>>, table |-> <<>>]
         /\ base = <<>> /\ table = <<>> /\ n = 0 /\ last = <<>>

(* Map: a direct call with integer profiles.                                *)
MapVerdict(e) ==
  LET k == Len(e.H1) IN
  CASE Len(e.match) # k -> "every-factor-mapped"
    [] \E i \in 1..k : e.match[i] \notin Best(e.H1[i], e.H2) -> "best-correlated-factor"
    [] \E i \in 1..k : e.match[i] # i /\ e.H2[i] = e.H2[e.match[i]] /\ e.sums[i] = e.sums[e.match[i]] -> "ties-to-same-number"
    [] \E i \in 1..k : Abs(e.r2[i] * Var(e.H1[i]) * Var(e.H2[e.match[i]])
                          - 1000 * Cov(e.H1[i], e.H2[e.match[i]]) * Cov(e.H1[i], e.H2[e.match[i]]))
                       > Var(e.H1[i]) * Var(e.H2[e.match[i]]) -> "reported-correlation"
    [] \E i \in 1..k : ~e.mapped[i] /\ R2Above(e.H1[i], e.H2[e.match[i]], e.thr) -> "mapped-at-threshold"
    [] \E i \in 1..k : e.mapped[i] /\ ~R2Above(e.H1[i], e.H2[e.match[i]], e.thr)
                                   /\ ~R2Equal(e.H1[i], e.H2[e.match[i]], e.thr) -> "mapped-below-threshold"
    [] OTHER -> ""

(* Run: one run of a bootstrap; r2 in units of 1e-6 recomputed from its W, H *)
RunVerdict(e) ==
  LET k == Len(e.r2) IN
  CASE \E i, j \in 1..k : e.r2[i][j] > e.r2[i][e.match[i]] + 2 -> "best-correlated-factor"
    [] \E i \in 1..k : Abs(e.rep[i] - e.r2[i][e.match[i]]) > 2 -> "reported-correlation"
    [] \E i \in 1..k : ~e.mapped[i] /\ e.r2[i][e.match[i]] > e.thr + 2 -> "mapped-at-threshold"
    [] \E i \in 1..k : e.mapped[i] /\ e.r2[i][e.match[i]] < e.thr - 2 -> "mapped-below-threshold"
    [] OTHER -> ""
MapRow(e) == [i \in 1..Len(e.match) |-> IF e.mapped[i] THEN e.match[i] ELSE 0]

Close(a, b) == Abs(a - b) <= 2 + Abs(b) \div 10000
Drop(x, lim) == IF x < lim THEN 0 ELSE x
TableVerdict(e) ==
  LET k == cfg.k
      R == Len(st.runs) IN
  CASE R # cfg.n -> "every-run-compiled"
    [] \E i, j \in 1..k : e.table[i][j] # st.table[i][j] -> "mapping-table"
    [] \E i \in 1..k : e.unmapped[i] # st.table[i][0] -> "unmapped-count"
    [] Len(e.q) # R \/ \E r \in 1..R : ~Close(e.q[r], st.runs[r].q) -> "loss-table"
    [] \E i \in 1..k : Len(e.factor[i]) # R \/ Len(e.contrib[i]) # R \/ Len(e.prof[i]) # R -> "one-row-per-run"
    [] \E i \in 1..k : \E r \in 1..R : \E f \in 1..cfg.f : ~Close(e.factor[i][r][f], st.runs[r].H[i][f]) -> "factor-table"
    [] \E i \in 1..k : \E r \in 1..R : \E f \in 1..cfg.f : ~Close(e.prof[i][r][f], st.runs[r].P[i][f]) -> "profile-table"
    [] \E i \in 1..k : \E r \in 1..R : \E f \in 1..cfg.f : ~Close(e.contrib[i][r][f], Max2(0, st.runs[r].C[i][f]))   \* negative sums (ws-nmf) count as 0
         -> "contribution-table"
    [] OTHER -> ""

MaxOf(q) == CHOOSE x \in {q[r] : r \in 1..Len(q)} : \A r \in 1..Len(q) : q[r] <= x
Column(i, f) == [r \in 1..Len(st.runs) |-> st.runs[r].H[i][f]]
(* values are in units of 1e-4; a displayed percentile in 1e-6              *)
Shown(e) == \* the columns of the table for factor e.i
  CASE \E f \in 1..cfg.f : \E p \in 1..5 :
          Abs(e.pct[p][f] - Percentile(Column(e.i, f), <<5, 25, 50, 75, 95>>[p])) > 105 + e.pct[p][f] \div 5000
          -> "percentiles"
    [] \E f \in 1..cfg.f : Abs(Len(st.runs) * e.mean[f] - 100 * SumSeq(Column(e.i, f))) > 200 * Len(st.runs) -> "mean"
    [] \E f \in 1..cfg.f : Abs(e.baseRow[f] - e.baseH[f]) > 12 -> "base-profile"
    [] \E f \in 1..cfg.f : \E p, q \in 1..5 : p < q /\ e.pct[p][f] > e.pct[q][f] -> "percentiles-ordered"
    [] \E f \in 1..cfg.f : LET col == Column(e.i, f)
                              M == MaxOf(col)
                              R == Len(col)
                              x == [r \in 1..R |-> ((col[r] * 1000) \div M)]
                              s == (e.std[f] * 10) \div M
                              d == [r \in 1..R |-> ((R * x[r] - SumSeq(x)) \div R)]
                              sq == SumSeq([r \in 1..R |-> d[r] * d[r]])
                              tol == 3 + (2000 \div M)
                          IN R >= 2 /\ M >= 20 /\ ((R - 1) * (s + tol) * (s + tol) < sq \/ (s > tol /\ (R - 1) * (s - tol) * (s - tol) > sq + 6 * R * tol))
         -> "standard-deviation"
    [] \E f \in 1..cfg.f : LET lo == Percentile(Column(e.i, f), 25)
                              hi == Percentile(Column(e.i, f), 75)
                              b == e.baseH[f]
                              tol == 120 + (b \div 5000)
                          IN \/ e.iqr[f] /\ (b < lo - tol \/ b > hi + tol)
                             \/ ~e.iqr[f] /\ b > lo + tol /\ b < hi - tol -> "within-quartiles"
    [] OTHER -> ""

(* what the summary shows: mapping table, losses, then every factor         *)
Losses == [r \in 1..Len(st.runs) |-> st.runs[r].q]
Rounded(shown, p) == Abs(100 * shown - (Percentile(Losses, p) \div 1000)) > 51      \* Percentile: 100 times the value, here in 1e-5
MapShown(e) ==
  LET k == cfg.k IN
  CASE e.head # <<"Boot Factors">> \o [j \in 1..k |-> "Base Factor " \o ToString(j)] \o <<"Unmapped">> -> "mapping-table-shown"
    [] e.cells[1] # [i \in 1..k |-> "Boot Factor " \o ToString(i)] -> "mapping-table-shown"
    [] \E i, j \in 1..k : e.cells[j + 1][i] # ToString(st.table[i][j]) -> "mapping-table-shown"
    [] \E i \in 1..k : e.cells[k + 2][i] # ToString(st.table[i][0]) -> "mapping-table-shown"
    [] OTHER -> ""
LossesShown(e) ==
  CASE e.head # <<"Base", "Min", "25th", "Median", "75th", "Max">> -> "losses-shown"
    [] Abs(1000 * e.cells[1] - e.base) > 501 -> "losses-shown"
    [] \E q \in 1..5 : Rounded(e.cells[q + 1], <<0, 25, 50, 75, 100>>[q]) -> "losses-shown"
    [] OTHER -> ""
(* the box plots of a factor: every run's profile share and contribution    *)
AtLeast1(x) == Max2(1, x)
Plots(e) ==
  CASE e.drawn # (IF e.i \in 1..cfg.k THEN 2 ELSE 0) -> "plots-of-a-factor"
    [] e.drawn = 0 -> ""
    [] e.profFactor # e.i \/ e.contrFactor # e.i -> "plots-of-a-factor"
    [] \E f \in 1..cfg.f : Len(e.prof[f]) # cfg.n \/ Len(e.contr[f]) # cfg.n -> "one-point-per-run"
    [] \E f \in 1..cfg.f : \E r \in 1..cfg.n : ~Close(e.prof[f][r], st.runs[r].P[e.i][f]) -> "profile-plot"
    [] \E f \in 1..cfg.f : ~Close(e.profBase[f], e.basep[f]) -> "profile-plot-base"
    [] \E f \in 1..cfg.f : \E r \in 1..cfg.n : ~Close(e.contr[f][r], AtLeast1(st.runs[r].C[e.i][f])) -> "contribution-plot"
    [] \E f \in 1..cfg.f : ~Close(e.contrBase[f], AtLeast1(e.basec[f])) -> "contribution-plot-base"
    [] OTHER -> ""
Verdict(e) == CASE e.ev = "Map"   -> MapVerdict(e)
                [] e.ev = "Tie"   -> IF ~e.at THEN "mapped-at-threshold" ELSE IF e.above THEN "mapped-below-threshold" ELSE ""
                [] e.ev = "Run"   -> RunVerdict(e)
                [] e.ev = "Table" -> TableVerdict(e)
                [] e.ev = "Shown" -> Shown(e)
                [] e.ev = "MapShown" -> MapShown(e)
                [] e.ev = "Losses" -> LossesShown(e)
                [] e.ev = "Summary" -> IF e.order # <<-1, 0>> \o [i \in 1..cfg.k |-> i] THEN "summary-complete" ELSE ""
                [] e.ev = "Plots" -> Plots(e)
                [] e.ev = "Base"  -> IF e.before # e.after THEN "base-model-changed"
                                     ELSE IF e.runsBefore # e.runsAfter THEN "run-models-changed" ELSE ""
                [] OTHER -> "unexpected-exception"
Apply(e) == IF e.ev # "Run" THEN st
            ELSE [runs |-> Append(st.runs, e),
                  table |-> AddRun(IF st.table = <<>> THEN EmptyTable(cfg.k) ELSE st.table, MapRow(e))]
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN l' = l + 1 /\ err' = "" /\ st' = Apply(ev[l])
              ELSE l' = l /\ err' = v /\ st' = st
         /\ UNCHANGED <<vars, c>>
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
