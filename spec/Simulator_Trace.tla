--------------------------- MODULE Simulator_Trace ---------------------------
(* Recorded simulators.  cfg: f, n, m, outliers, p (percent), mag (tenths),  *)
(* cmax (1e-5), nlo, nhi, ns, ulo, uhi, us (1e-5: noise and uncertainty      *)
(* means and scales).  Tokens name rows and columns by their exact values.   *)
(* Op: the state after an operation.  Curve: a contribution and its request, *)
(* as parts (1e-5) of the range.  Data: one feature of the data handed out   *)
(* relative to contributions times profiles, and its uncertainty relative to *)
(* the data, in 1e-5.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TraceBase
VARIABLES c, l, err, prof, con, gen
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<c, l, err, prof, con, gen>>
F == cfg.f
None == [prof |-> <<>>, con |-> <<>>]
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ prof = <<>> /\ con = <<>> /\ gen = None

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
SeqMin(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x <= s[i]
SeqMax(s) == CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : x >= s[i]
One == 100000

NewVerdict(e) ==
  CASE Len(e.prof) # F \/ Len(e.con) # F \/ ~e.shapes -> "requested-shape"
    [] \E i, j \in 1..F : e.prof[i] = e.con[j] -> "requested-shape"
    [] \E i \in 1..Len(e.w) : e.w[i] < 0 \/ e.w[i] > cfg.cmax -> "contribution-range"
    [] \E i \in 1..Len(e.h) : e.h[i] < 0 \/ e.h[i] > One \/ ~e.positive -> "profile-range"
    [] \E j \in 1..cfg.n : e.owners[j] < 1 -> "every-feature-has-a-source"
    [] cfg.m >= 40 /\ 4 * (SeqMax(e.w) - SeqMin(e.w)) < 3 * cfg.cmax -> "contribution-range"
    [] OTHER -> ""
Gen(e) == [prof |-> e.gprof, con |-> e.gcon]
Cur(e) == [prof |-> e.prof, con |-> e.con]
OpVerdict(e) ==
  CASE e.op = "update" /\ (e.prof # prof \/ \E i \in 1..F : i # e.factor /\ e.con[i] # con[i]) -> "only-the-named-factor"
    [] e.op = "profiles" /\ (e.con # con \/ Gen(e) # gen) -> "only-the-profiles"
    [] e.op = "profiles" /\ (\E i \in 1..Len(e.given) : e.prof[i] # e.given[i]) -> "given-profiles-used"
    [] e.op = "profiles" /\ (\E i \in (Len(e.given) + 1)..F : e.prof[i] = prof[i] /\ ~e.empty[i]) -> "random-profiles"
    [] e.op = "profiles" /\ e.kind = "random" /\ \E j \in 1..cfg.n : e.owners[j] < 1 -> "every-feature-has-a-source"
    [] e.op = "data" /\ (e.prof # prof \/ e.con # con) -> "generation-keeps-sources"
    [] e.op = "data" /\ Gen(e) # Cur(e) -> "data-from-current-sources"
    [] e.op = "update" /\ gen # None /\ Gen(e) # Cur(e) -> "recalculated-on-update"
    [] e.op = "update" /\ gen = None /\ Gen(e) # None -> "generated-on-request"
    [] ~e.callers -> "callers-matrix-unchanged"
    [] ~e.shapes \/ ~e.positive -> "requested-shape"
    [] OTHER -> ""

(* y: the drawn values; 0 is the minimum and One the maximum of the request; *)
(* s: the scale of the draw (0: the curve itself)                            *)
Line(i) == IF cfg.m = 1 THEN 0 ELSE ((i - 1) * One) \div (cfg.m - 1)
Edge(e) == IF e.kind = "uniform" THEN One \div 2 ELSE One \div 10
CurveVerdict(e) ==
  LET y == e.y
      dev == [i \in 1..Len(y) |-> y[i] - (IF e.kind = "increasing" THEN Line(i) ELSE IF e.kind = "decreasing" /\ cfg.m > 1 THEN One - Line(i)
                                          ELSE IF e.kind = "decreasing" THEN One ELSE y[i])]
      sq == SumSeq([i \in 1..Len(y) |-> ((Abs(dev[i]) \div 10) * (Abs(dev[i]) \div 10)) \div 1000])
  IN CASE Len(y) # cfg.m -> "requested-shape"
       [] \E i \in 1..Len(y) : Abs(dev[i]) > 8 * e.s + 3 -> "values-follow-the-curve"
       [] \E i \in 1..Len(y) : y[i] < -8 * e.s - 3 \/ y[i] > One + 8 * e.s + 3 -> "values-in-the-range"
       [] e.s = 0 /\ cfg.m >= 40 /\ (e.full \/ e.kind \notin {"logistic", "periodic"}) /\ (SeqMin(y) > Edge(e) \/ SeqMax(y) < One - Edge(e)) -> "values-span-the-range"
       [] e.s >= 2000 /\ e.s < 30000 /\ cfg.m >= 100 /\ e.kind \in {"increasing", "decreasing"} /\ ~e.floored
            /\ \/ sq > 3 * cfg.m * (((e.s \div 10) * (e.s \div 10)) \div 1000)
               \/ 3 * sq < cfg.m * (((e.s \div 10) * (e.s \div 10)) \div 1000) -> "values-sampled-with-the-scale"
       [] e.s = 0 /\ cfg.m >= 40 /\ e.kind \in {"logistic", "periodic"} /\ e.full /\ e.runs < 2 -> "slope-changes"
       [] OTHER -> ""

(* --- data ---------------------------------------------------------------- *)
Clean(r) == LET d == Abs(r - One) IN d >= cfg.nlo - 8 * cfg.ns - 5 /\ d <= cfg.nhi + 8 * cfg.ns + 5
Up(r) == Clean((r * 10) \div cfg.mag)
Down(r) == Clean((r * cfg.mag) \div 10)
Small == cfg.nhi + 8 * cfg.ns <= 30000 /\ cfg.mag >= 20 /\ cfg.outliers
Certain == cfg.nlo - 5 * cfg.ns >= 0
Normals(e) == SelectSeq([i \in 1..Len(e.r) |-> Abs(e.r[i] - One)],
                        LAMBDA d : d >= cfg.nlo - 8 * cfg.ns - 5 /\ d <= cfg.nhi + 8 * cfg.ns + 5)
Count(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
Sq(x) == x * x
Var(s, mean) == SumSeq([i \in 1..Len(s) |-> (Sq((s[i] - mean) \div 10)) \div 100]) \div Len(s)
SpreadOk(s, mean, sig) == LET v == Var(s, mean) IN 4 * v >= Sq(sig \div 10) \div 100 - 4 /\ v <= 4 * (Sq(sig \div 10) \div 100) + 4
MeanOk(s, lo, hi, sig) == LET m == SumSeq(s) \div Len(s) IN m >= lo - sig - 5 /\ m <= hi + sig + 5
DataVerdict(e) ==
  CASE Len(e.r) # cfg.m \/ Len(e.u) # cfg.m -> "requested-shape"
    [] \E i \in 1..cfg.m : ~Clean(e.r[i]) /\ ~(cfg.outliers /\ (Up(e.r[i]) \/ Down(e.r[i])))
          /\ ~(e.r[i] <= 1 /\ cfg.nhi + 8 * cfg.ns >= One) -> "noise-on-the-product"
    [] \E i \in 1..cfg.m : (e.u[i] < cfg.ulo - 8 * cfg.us - 5 \/ e.u[i] > cfg.uhi + 8 * cfg.us + 5)
          /\ ~(e.floor[i] /\ cfg.ulo - 8 * cfg.us <= 0) -> "uncertainty-of-the-data"
    [] cfg.m >= 100 /\ Certain /\ (~cfg.outliers \/ Small) /\ ~MeanOk(Normals(e), cfg.nlo, cfg.nhi, cfg.ns) -> "noise-on-the-product"
    [] cfg.m >= 100 /\ Certain /\ cfg.ns >= 500 /\ (~cfg.outliers \/ Small)
          /\ ~SpreadOk(Normals(e), SumSeq(Normals(e)) \div Len(Normals(e)), cfg.ns) -> "noise-scale"
    [] cfg.m >= 100 /\ cfg.ulo - 6 * cfg.us >= 0 /\ ~MeanOk(e.u, cfg.ulo, cfg.uhi, cfg.us) -> "uncertainty-of-the-data"
    [] cfg.m >= 100 /\ cfg.ulo - 6 * cfg.us >= 0 /\ cfg.us >= 500 /\ ~SpreadOk(e.u, SumSeq(e.u) \div cfg.m, cfg.us) -> "uncertainty-scale"
    [] OTHER -> ""
(* the shares over all cells (three times the deviation of a binomial count, *)
(* doubled: six)                                                             *)
Near(k, n, pm) == Sq(Abs(k - (n * pm) \div 1000)) <= 36 * ((n * pm) \div 1000) + 100
ShareVerdict(e) ==
  IF e.cells < 300 THEN ""
  ELSE CASE Small /\ (~Near(e.up, e.cells, cfg.p * 5) \/ ~Near(e.down, e.cells, cfg.p * 5)) -> "outlier-share"
         [] ~cfg.outliers /\ (e.up + e.down > 0) /\ cfg.nhi + 8 * cfg.ns <= 30000 -> "outlier-share"
         [] Certain /\ cfg.nlo > 0 /\ cfg.nhi + 8 * cfg.ns <= 30000 /\ ~Near(e.below, e.cells - e.up - e.down, 500) -> "noise-of-both-signs"
         [] OTHER -> ""
ModelVerdict(e) ==
  CASE ~e.frames -> "frames-are-the-data"
    [] ~e.index -> "time-index"
    [] ~e.columns -> "frame-columns"
    [] ~e.inputs -> "model-of-the-data"
    [] Abs(e.wh) > 2 \/ Abs(e.qtrue) > 20 \/ Abs(e.qrobust) > 20 -> "model-of-the-data"
    [] OTHER -> ""
(* --- comparison with a batch: perm maps model factors to true factors      *)
(* another number of factors than sources: those that have a source         *)
OddVerdict(e) ==
  LET want == {<<q, e.source[q]>> : q \in {y \in 1..Len(e.source) : e.source[y] # 0}} IN
  IF Len(e.pairs) # Cardinality(want) \/ {e.pairs[i] : i \in 1..Len(e.pairs)} # want THEN "figure-shows-the-pairs" ELSE ""
CompareVerdict(e) ==
  CASE e.best # e.exact -> "best-model"
    [] e.map # cfg.perms[e.model] -> "recovers-the-sources"
    [] e.pairs # [i \in 1..F |-> <<i, cfg.perms[e.model][i]>>] -> "figure-shows-the-pairs"
    [] OTHER -> ""
Verdict(e) == CASE e.ev = "New" -> NewVerdict(e)
                [] e.ev = "Op" -> OpVerdict(e)
                [] e.ev = "Curve" -> CurveVerdict(e)
                [] e.ev = "Data" -> DataVerdict(e)
                [] e.ev = "Share" -> ShareVerdict(e)
                [] e.ev = "Model" -> ModelVerdict(e)
                [] e.ev = "Compare" -> CompareVerdict(e)
                [] e.ev = "Odd" -> OddVerdict(e)
                [] e.ev = "Again" -> IF e.same /\ e.other THEN "" ELSE "reproducible"
                [] OTHER -> "unexpected-exception"
Step == /\ err = "" /\ l <= Len(ev)
        /\ err' = Verdict(ev[l])
        /\ l' = IF err' = "" THEN l + 1 ELSE l
        /\ IF ev[l].ev \in {"New", "Op"} /\ err' = ""
           THEN prof' = ev[l].prof /\ con' = ev[l].con /\ gen' = (IF ev[l].ev = "New" THEN None ELSE Gen(ev[l]))
           ELSE UNCHANGED <<prof, con, gen>>
        /\ UNCHANGED c
TSpec == TInit /\ [][Step]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
