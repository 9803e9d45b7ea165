--------------------------- MODULE Analysis_Trace ---------------------------
(* Figures and tables recorded from the real analysis.  A State event holds  *)
(* the model an analysis was made for (or the matrices that override it):    *)
(* V, U, W, H, WH in 1e-3; the figures after it are judged against it.       *)
(* cfg: f factors, n features, m samples; ts: samples in order of time.      *)
EXTENDS Integers, Sequences, FiniteSets, TraceBase
VARIABLES c, l, err
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<c, l, err>>
TInit == c \in 1..Len(Cases) /\ l = 1 /\ err = ""
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Sq(x) == x * x
St(i) == ev[CHOOSE k \in 1..i : ev[k].ev = "State" /\ \A q \in (k + 1)..i : ev[q].ev # "State"]
Fs == 1..cfg.f
Ns == 1..cfg.n
Ms == 1..cfg.m
SumH(s, j) == SumSeq([k \in Fs |-> s.H[k][j]])
SumW(s, k) == SumSeq([i \in Ms |-> s.W[i][k]])
ColV(s, j) == [i \in Ms |-> s.V[i][j]]
ColE(s, j) == [i \in Ms |-> s.WH[i][j]]

StateVerdict(e) ==
  CASE e.own /\ \E i \in Ms, j \in Ns : Abs(SumSeq([k \in Fs |-> (e.W[i][k] * e.H[k][j]) \div 100]) - 10 * e.WH[i][j]) > 60 + 20 * cfg.f + SumSeq([k \in Fs |-> (e.W[i][k] + e.H[k][j]) \div 100])
       -> "estimate-of-the-model"
    [] OTHER -> ""
(* percent: 1e-2 %; H of a factor over the sum of all factors                *)
PercentOk(s, p, k, j) == Abs(p * SumH(s, j) - 10000 * s.H[k][j]) <= 5000 * (cfg.f + 1) + SumH(s, j) + p * cfg.f
ConcOk(s, x, k, j) ==   (* 1e-3: total mass of the factor in the feature        *)
  LET w == SumW(s, k) \div 10
  IN Abs(x * 10 - (w * s.H[k][j]) \div 10) <= 20 + (w + s.H[k][j] * cfg.m) \div 10 + x \div 50
(* normalized contribution, 1e-2, mean one                                   *)
ContrOk(s, y, i, k) == Abs(y * SumW(s, k) - 100 * cfg.m * s.W[i][k]) <= SumW(s, k) + 60 * cfg.m + y * cfg.m
Lab(k) == "Factor " \o ToString(k)
BarsOk(s, e, k) == \A j \in Ns : PercentOk(s, e.percent[j], k, j)
ProfileVerdict(s, e) ==
  CASE e.drawn # (e.item \in Fs) -> "valid-items-only"
    [] ~e.drawn -> ""
    [] e.features # cfg.features -> "features-of-the-data"
    [] ~BarsOk(s, e, e.item) -> "share-of-the-factor"
    [] \E j \in Ns : ~ConcOk(s, e.conc[j], e.item, j) -> "mass-of-the-factor"
    [] Len(e.contr) # cfg.m -> "every-sample-once"
    [] \E t \in Ms : ~ContrOk(s, e.contr[t], cfg.ts[t], e.item) -> "contribution-of-the-factor"
    [] e.titles # <<cfg.sel[s.model], e.item, cfg.sel[s.model], e.item>> -> "named-model-and-factor"
    [] OTHER -> ""
FactorsVerdict(s, e) ==
  CASE e.items # e.want -> "factors-asked-for"
    [] e.features # [x \in 1..Len(e.items) |-> cfg.features] -> "features-of-the-data"
    [] \E x \in 1..Len(e.items) : \E j \in Ns : ~PercentOk(s, e.percent[x][j], e.items[x], j) -> "share-of-the-factor"
    [] \E x \in 1..Len(e.items) : Len(e.conc) > 0 /\ \E j \in Ns : ~ConcOk(s, e.conc[x][j], e.items[x], j) -> "mass-of-the-factor"
    [] OTHER -> ""
(* contributions of a factor up to a common normalization; y sums to 1e4     *)
PropOk(s, y, k) == \A i \in Ms : Abs(y[i] * SumW(s, k) - 10000 * s.W[i][k]) <= SumW(s, k) + 6000 + cfg.m * y[i]
SpaceVerdict(s, e) ==
  CASE e.drawn # (e.item \in Fs /\ e.other \in Fs) -> "valid-items-only"
    [] ~e.drawn -> ""
    [] Len(e.x) # cfg.m \/ Len(e.y) # cfg.m -> "every-sample-once"
    [] ~PropOk(s, e.x, e.item) \/ ~PropOk(s, e.y, e.other) -> "contribution-of-the-factor"
    [] e.axes # <<e.item, e.other>> -> "named-factor"
    [] OTHER -> ""
ContributionsVerdict(s, e) ==
  CASE e.drawn # (e.item + 1 \in Ns) -> "valid-items-only"
    [] ~e.drawn -> ""
    [] {e.pie[x].factor : x \in 1..Len(e.pie)} \cap {k \in Fs : 10000 * s.H[k][e.item + 1] < (e.threshold - 30) * SumH(s, e.item + 1)} # {}
         \/ {k \in Fs : 10000 * s.H[k][e.item + 1] > (e.threshold + 30) * SumH(s, e.item + 1)} \ {e.pie[x].factor : x \in 1..Len(e.pie)} # {}
         \/ Cardinality({e.pie[x].factor : x \in 1..Len(e.pie)}) # Len(e.pie) -> "factors-above-the-threshold"
    [] \E x \in 1..Len(e.pie) : ~PercentOk(s, e.pie[x].percent, e.pie[x].factor, e.item + 1) -> "share-of-the-factor"
    [] \E k \in Fs : Len(e.contr[k]) # cfg.m -> "every-sample-once"
    [] \E k \in Fs : ~PropOk(s, [i \in Ms |-> e.contr[k][CHOOSE t \in Ms : cfg.ts[t] = i]], k) -> "contribution-of-the-factor"
    [] e.feature # e.item + 1 -> "named-feature"
    [] OTHER -> ""
(* scaled residuals 1e-3                                                     *)
ResOk(s, r, i, j) == Abs((r \div 10) * s.U[i][j] - 100 * (s.V[i][j] - s.WH[i][j])) <= 110 + s.U[i][j] + Abs(r) \div 10
Far(s, j, t) == {i \in Ms : Abs(s.V[i][j] - s.WH[i][j]) * 10 > t * (s.U[i][j] + 1) + 20}     (* t: 1e-1 *)
Near(s, j, t) == {i \in Ms : Abs(s.V[i][j] - s.WH[i][j]) * 10 < t * (s.U[i][j] - 1) - 20}
ResidualVerdict(s, e) ==
  LET j == e.item + 1
  IN CASE e.drawn # (j \in Ns) -> "valid-items-only"
       [] ~e.drawn -> ""
       [] Len(e.hist) # cfg.m -> "every-sample-once"
       [] \E i \in Ms : ~ResOk(s, e.hist[i], i, j) \/ e.box[i] # e.hist[i] -> "scaled-residual"
       [] e.shares # "probability" -> "shares-of-the-samples"
       [] LET S[i \in 0..cfg.m] == IF i = 0 THEN 0 ELSE S[i - 1] + e.hist[i] \div 10
              span == (CHOOSE x \in {e.hist[i] : i \in Ms} : \A k \in Ms : e.hist[k] <= x) - (CHOOSE x \in {e.hist[i] : i \in Ms} : \A k \in Ms : e.hist[k] >= x)
          IN Abs((e.bell \div 10) * cfg.m - S[cfg.m]) > cfg.m * ((span \div 2500) + 3) -> "normal-curve-of-the-residuals"
       [] e.listed /\ (Far(s, j, e.t) \ {e.rows[x] : x \in 1..Len(e.rows)} # {} \/ Near(s, j, e.t) \cap {e.rows[x] : x \in 1..Len(e.rows)} # {}
                       \/ \E x \in 1..Len(e.rows) : ~ResOk(s, e.vals[x], e.rows[x], j)) -> "residuals-beyond-the-threshold"
       [] e.feature # j -> "named-feature"
       [] OTHER -> ""
(* the regression line leaves residuals without mean and without trend       *)
Fit(x, y, line) ==
  LET n == Len(x) IN
  /\ Abs(SumSeq([i \in 1..n |-> y[i] - line[i]])) <= 2 * n + 5
  /\ Abs(SumSeq([i \in 1..n |-> (y[i] - line[i]) * (x[i] \div 10)])) <= SumSeq([i \in 1..n |-> Abs(x[i]) \div 5 + Abs(y[i] - line[i])]) + 5 * n
ObservedVerdict(s, e) ==
  LET j == e.item + 1
  IN CASE e.drawn # (j \in Ns) -> "valid-items-only"
       [] ~e.drawn -> ""
       [] Len(e.x) # cfg.m \/ Len(e.y) # cfg.m -> "every-sample-once"
       [] \E i \in Ms : Abs(e.x[i] - s.V[i][j]) > 1 -> "observed-of-the-feature"
       [] \E i \in Ms : Abs(e.y[i] - s.WH[i][j]) > 2 + cfg.f -> "estimate-of-the-feature"
       [] ~Fit(e.x, e.y, e.line) -> "regression-of-the-points"
       [] \E i \in Ms : Abs(e.one[i] - e.x[i]) > 2 -> "one-to-one-line"
       [] e.feature # j -> "named-feature"
       [] OTHER -> ""
SeriesVerdict(s, e) ==
  LET j == e.item + 1
  IN CASE e.drawn # (j \in Ns) -> "valid-items-only"
       [] ~e.drawn -> ""
       [] Len(e.x) # cfg.m \/ Len(e.y) # cfg.m \/ Len(e.r) # cfg.m -> "every-sample-once"
       [] \E t \in Ms : Abs(e.x[t] - s.V[cfg.ts[t]][j]) > 1 -> "observed-of-the-feature"
       [] \E t \in Ms : Abs(e.y[t] - s.WH[cfg.ts[t]][j]) > 2 + cfg.f -> "estimate-of-the-feature"
       [] \E t \in Ms : Abs(e.r[t] - (e.x[t] - e.y[t])) > 2 -> "residual-of-the-feature"
       [] ~e.times -> "in-order-of-time"
       [] e.feature # j \/ e.model # cfg.sel[s.model] -> "named-model-and-feature"
       [] OTHER -> ""
(* surfaces: mass or share of the data of one factor, or of one feature      *)
MassOk(s, z, i, j, k) == Abs(10 * z - (s.W[i][k] * s.H[k][j]) \div 100) <= 20 + (s.W[i][k] + s.H[k][j]) \div 100    \* z 1e-3
ShareOk(s, z, i, j, k) == Abs((z \div 10) * s.V[i][j] - (s.W[i][k] * s.H[k][j]) \div 10) <= 20 + s.V[i][j] + (z + 10 * (s.W[i][k] + s.H[k][j])) \div 10   \* z 1e-3
CellOk(s, e, z, i, j, k) == IF e.share THEN ShareOk(s, z, i, j, k) ELSE MassOk(s, z, i, j, k)
SurfaceVerdict(s, e) ==
  CASE e.drawn # (IF e.byfactor THEN e.item \in Fs ELSE e.item + 1 \in Ns) -> "valid-items-only"
    [] ~e.drawn -> ""
    [] Len(e.z) # cfg.m -> "every-sample-once"
    [] e.byfactor /\ \E i \in Ms, j \in Ns : IF e.z[i][j] = NaN THEN s.W[i][e.item] * s.H[e.item][j] > 400 + (s.V[i][j] \div 5) + s.W[i][e.item] + s.H[e.item][j]
                                             ELSE ~CellOk(s, e, e.z[i][j], i, j, e.item) -> "mass-of-the-factor"
    [] ~e.byfactor /\ \E i \in Ms, k \in Fs : ~CellOk(s, e, e.z[i][k], i, e.item + 1, k) -> "mass-of-the-factor"
    [] e.byfactor /\ e.labels # cfg.features -> "features-of-the-data"
    [] ~e.byfactor /\ e.labels # [k \in Fs |-> Lab(k)] -> "named-factor"
    [] OTHER -> ""
(* got and expected of numbers computed by the driver                        *)
PairsVerdict(e) == IF \E p \in 1..Len(e.got) : Abs(e.got[p] - e.want[p]) > e.tol THEN e.what ELSE IF Len(e.got) # Len(e.want) THEN e.what ELSE ""
MetricsVerdict(s, e) ==
  LET n == cfg.m IN
  CASE e.features # cfg.features -> "features-of-the-data"
    [] \E j \in Ns : Abs(e.mean[j] * n - SumSeq(ColV(s, j))) > 2 * n -> "mean-of-the-feature"
    [] \E j \in Ns : Abs(e.emean[j] * n - SumSeq(ColE(s, j))) > 2 * n -> "mean-of-the-estimate"
    [] \E j \in Ns : LET d == SumSeq([i \in Ms |-> Sq(s.V[i][j] - s.WH[i][j])]) IN
         ~(d <= n * Sq(e.rmse[j] + 3) /\ (e.rmse[j] <= 3 \/ d >= n * Sq(e.rmse[j] - 3))) -> "error-of-the-feature"
    [] OTHER -> ""
StatVerdict(s, e) ==
  CASE e.features # cfg.features -> "features-of-the-data"
    [] e.category # cfg.category -> "category-of-the-feature"
    [] \E j \in Ns : e.shapiro[j] # (e.shapiro_p[j] >= 500000) \/ e.ks[j] # (e.ks_p[j] >= 500000) -> "test-at-five-percent"
    [] \E j \in Ns : Abs(e.intercept[j] - (SumSeq(ColE(s, j)) \div cfg.m) + (e.slope[j] * (SumSeq(ColV(s, j)) \div cfg.m)) \div 1000) > 6 + SumSeq(ColV(s, j)) \div (cfg.m * 500) -> "regression-of-the-feature"
    [] OTHER -> ""
LossVerdict(e) ==
  CASE e.models # cfg.alive -> "one-curve-per-model"
    [] e.data # cfg.alive -> "loss-of-the-model"
    [] OTHER -> ""
DistributionVerdict(e) == IF e.models # [x \in 1..Len(cfg.alive) |-> cfg.alive[x] - 1] \/ e.true # cfg.alive \/ e.robust # cfg.alive THEN "loss-of-the-model" ELSE ""
TemporalVerdict(e) ==
  CASE e.input # e.item + 1 -> "observed-of-the-feature"
    [] e.models # cfg.alive \/ e.data # cfg.alive -> "residual-of-the-model"
    [] e.visible # <<e.best>> -> "best-model-is-shown"
    [] OTHER -> ""
(* figures of the data: want and got are columns                             *)
DataVerdict(e) == CASE e.drawn # e.valid -> "valid-items-only" [] e.got # e.want -> e.what [] OTHER -> ""
Verdict(i) ==
  LET e == ev[i] IN
  CASE e.ev = "State" -> StateVerdict(e)
    [] e.ev = "Crash" -> "unexpected-exception"
    [] ~e.kept -> "analysis-changes-nothing"
    [] e.ev = "profile" -> ProfileVerdict(St(i), e)
    [] e.ev = "factors" -> FactorsVerdict(St(i), e)
    [] e.ev = "gspace" -> SpaceVerdict(St(i), e)
    [] e.ev = "contributions" -> ContributionsVerdict(St(i), e)
    [] e.ev = "residuals" -> ResidualVerdict(St(i), e)
    [] e.ev = "observed" -> ObservedVerdict(St(i), e)
    [] e.ev = "timeseries" -> SeriesVerdict(St(i), e)
    [] e.ev = "surface" -> SurfaceVerdict(St(i), e)
    [] e.ev = "metrics" -> MetricsVerdict(St(i), e)
    [] e.ev = "statistics" -> StatVerdict(St(i), e)
    [] e.ev = "Pairs" -> PairsVerdict(e)
    [] e.ev = "loss" -> LossVerdict(e)
    [] e.ev = "distribution" -> DistributionVerdict(e)
    [] e.ev = "temporal" -> TemporalVerdict(e)
    [] e.ev = "Data" -> DataVerdict(e)
    [] OTHER -> "unexpected-exception"
Step == /\ err = "" /\ l <= Len(ev)
        /\ err' = Verdict(l)
        /\ l' = IF err' = "" THEN l + 1 ELSE l
        /\ UNCHANGED c
TSpec == TInit /\ [][Step]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
