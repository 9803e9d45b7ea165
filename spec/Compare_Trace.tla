---------------------------- MODULE Compare_Trace ----------------------------
(* Recorded comparison figures.  cfg: k factors, n features, m samples, sol  *)
(* (W and H of PMF, LS, WS in integers), maps (LS, WS), v the data, day the  *)
(* day of every sample (1..days).  Figures list what they show: shares in    *)
(* 1e-6, sums and residuals as they are, means in 1e-4.                      *)
EXTENDS Compare, TraceBase
VARIABLES c, l, err
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err>>
TInit == c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ prof = <<>> /\ maps = <<>> /\ shown = <<>> /\ n = 0
Order == <<"PMF", "LS", "WS">>
W(s) == cfg.sol[s].W
H(s) == cfg.sol[s].H
Map(s) == IF s = "PMF" THEN Identity(cfg.k) ELSE cfg.maps[s]
ShareOK(v, s, f, j) == LET q == Mass(H(s), j) IN Abs(v * q - 1000000 * H(s)[f][j]) <= 2 * q
Range(s) == {s[i] : i \in 1..Len(s)}
OneEach(x) == Len(x) = 3 /\ {x[i].sol : i \in 1..3} = Sols
PieVerdict(e) ==
  CASE ~OneEach(e.pies) -> "every-solution-shown"
    [] \E i \in 1..3 : e.pies[i].factors # Identity(cfg.k) \/ Len(e.pies[i].vals) # cfg.k -> "every-factor-shown"
    [] \E i \in 1..3 : \E f \in 1..cfg.k : ~ShareOK(e.pies[i].vals[f], e.pies[i].sol, f, e.feature) -> "shares-of-the-feature"
    [] e.title # e.feature -> "named-feature"
    [] OTHER -> ""
(* the bars of one solution; at is the factor of PMF5 they stand for         *)
BarOK(b, s) == Len(b.vals) = cfg.n /\ b.species /\ \A j \in 1..cfg.n : ShareOK(b.vals[j], s, b.factor, j)
PrintVerdict(e) ==
  CASE ~OneEach(e.prints) -> "every-solution-shown"
    [] \E i \in 1..3 : {e.prints[i].bars[b].factor : b \in 1..Len(e.prints[i].bars)} # 1..cfg.k \/ Len(e.prints[i].bars) # cfg.k -> "every-factor-shown"
    (* corresponding factors lie at the same height of the stack             *)
    [] \E i \in 1..3 : \E b \in 1..cfg.k : e.prints[i].bars[b].factor # Map(e.prints[i].sol)[cfg.k + 1 - b] -> "corresponding-factors"
    [] \E i \in 1..3 : \E b \in 1..cfg.k : ~BarOK(e.prints[i].bars[b], e.prints[i].sol) -> "shares-of-the-factors"
    [] \E i \in 1..3 : e.prints[i].r2 # (CASE e.prints[i].sol = "LS" -> e.ls [] e.prints[i].sol = "WS" -> e.ws [] OTHER -> -1) -> "correlation-in-the-title"
    [] OTHER -> ""
FactorsVerdict(e) ==
  CASE Len(e.bars) # 3 * cfg.k -> "every-factor-shown"
    [] \E s \in Sols, i \in 1..cfg.k : ~\E b \in 1..Len(e.bars) :
          e.bars[b].sol = s /\ e.bars[b].at = i /\ e.bars[b].factor = Map(s)[i] -> "corresponding-factors"
    [] \E b \in 1..Len(e.bars) : ~BarOK(e.bars[b], e.bars[b].sol) -> "shares-of-the-factors"
    [] OTHER -> ""
PartsVerdict(e) ==
  CASE [i \in 1..Len(e.figs) |-> e.figs[i].feature] # e.asked -> "features-asked-for"
    [] \E i \in 1..Len(e.figs) : ~OneEach(e.figs[i].lines) -> "every-solution-shown"
    [] \E i \in 1..Len(e.figs) : \E q \in 1..3 :
          LET x == e.figs[i].lines[q] IN x.vals # [s \in 1..cfg.m |-> Part(W(x.sol), H(x.sol), s, Map(x.sol)[e.factor], e.figs[i].feature)]
            -> "part-of-the-factor"
    [] \E i \in 1..Len(e.figs) : e.figs[i].input # (IF e.show THEN [s \in 1..cfg.m |-> cfg.v[s][e.figs[i].feature]] ELSE <<>>) -> "input-shown"
    [] \E i \in 1..Len(e.figs) : ~e.figs[i].times \/ e.figs[i].title # <<e.factor, e.figs[i].feature>> -> "named-feature"
    [] OTHER -> ""
OfDay(d) == {s \in 1..cfg.m : cfg.day[s] = d}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN f[s] + SumOver(S \ {s}, f)
DayOK(v, d, f) == IF OfDay(d) = {} THEN v = NaN
                  ELSE LET q == Cardinality(OfDay(d)) IN v # NaN /\ Abs(v * q - 10000 * SumOver(OfDay(d), f)) <= 2 * q
EstOf(s, j) == [i \in 1..cfg.m |-> Estimate(W(s), H(s), i, j)]
InputOf(j) == [i \in 1..cfg.m |-> cfg.v[i][j]]
SeriesVerdict(e) ==
  CASE ~OneEach(e.lines) -> "every-solution-shown"
    [] \E i \in 1..3 : Len(e.lines[i].vals) # cfg.days \/ \E d \in 1..cfg.days : ~DayOK(e.lines[i].vals[d], d, EstOf(e.lines[i].sol, e.feature)) -> "daily-mean-of-the-estimate"
    [] Len(e.input) # cfg.days \/ \E d \in 1..cfg.days : ~DayOK(e.input[d], d, InputOf(e.feature)) -> "daily-mean-of-the-input"
    [] ~e.times \/ e.title # e.feature -> "named-feature"
    [] OTHER -> ""
Resid(s, j) == [i \in 1..cfg.m |-> cfg.v[i][j] - Estimate(W(s), H(s), i, j)]
HistVerdict(e) ==
  CASE ~OneEach(e.lines) -> "every-solution-shown"
    [] \E i \in 1..3 : e.lines[i].vals # Resid(e.lines[i].sol, e.feature) -> "residuals-of-the-feature"
    [] \E i \in 1..3 :
         LET r == Resid(e.lines[i].sol, e.feature)
             t == e.lines[i].table
         IN \/ t[1] # MinOf(Range(r)) * 10000 \/ t[3] # MaxOf(Range(r)) * 10000
            \/ Abs(t[2] * cfg.m - 10000 * SumAll(r)) > 2 * cfg.m
            \/ t[4] # Cardinality({s \in 1..cfg.m : Abs(r[s]) >= e.threshold}) -> "table-of-the-residuals"
    [] e.title # e.feature \/ ~e.norm -> "named-feature"
    [] OTHER -> ""
Verdict(e) == CASE e.ev = "Pie" -> PieVerdict(e)
                [] e.ev = "Print" -> PrintVerdict(e)
                [] e.ev = "Factors" -> FactorsVerdict(e)
                [] e.ev = "Parts" -> PartsVerdict(e)
                [] e.ev = "Series" -> SeriesVerdict(e)
                [] e.ev = "Hist" -> HistVerdict(e)
                [] e.ev = "Kept" -> IF e.same THEN "" ELSE "tables-unchanged"
                [] OTHER -> "unexpected-exception"
Step == /\ err = "" /\ l <= Len(ev)
        /\ err' = Verdict(ev[l])
        /\ l' = IF err' = "" THEN l + 1 ELSE l
        /\ UNCHANGED <<vars, c>>
TSpec == TInit /\ [][Step]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
