-------------------------- MODULE ErrFigures_Trace --------------------------
(* Figures and tables recorded from the real error methods and constrained   *)
(* models.  Bs, Disp, Bsdisp and Con events hold the results of the last run *)
(* of a method (read from the models it trained, not from its tables); the   *)
(* figures after it are judged against them.  W, H in 1e-3, shares in 1e-2 % *)
(* of the feature, masses in 1e-3, dQ in 1e-1.  cfg: f factors, n features,  *)
(* m samples, W, H of the base model, ts: samples in order of time.          *)
EXTENDS Integers, Sequences, FiniteSets, TraceBase
VARIABLES c, l, err
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<c, l, err>>
TInit == c \in 1..Len(Cases) /\ l = 1 /\ err = ""
E == INSTANCE ErrFigures WITH F <- 0, MaxOps <- 0, ran <- <<>>, shown <- <<>>, hist <- <<>>
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
St(i, kind) == ev[CHOOSE k \in 1..i : ev[k].ev = kind /\ \A q \in (k + 1)..i : ev[q].ev # kind]
Fs == 1..cfg.f
Ns == 1..cfg.n
Ms == 1..cfg.m
SumH(H, j) == SumSeq([k \in Fs |-> H[k][j]])
SumW(W, k) == SumSeq([i \in Ms |-> W[i][k]])
PercentOk(H, p, k, j) == Abs(p * SumH(H, j) - 10000 * H[k][j]) <= 5000 * (cfg.f + 1) + SumH(H, j) + p * cfg.f
ConcOk(W, H, x, k, j) == LET w == SumW(W, k) \div 10 IN Abs(x * 10 - (w * H[k][j]) \div 10) <= 20 + (w + H[k][j] * cfg.m) \div 10 + x \div 50
ContrOk(W, y, i, k) == Abs(y * SumW(W, k) - 100 * cfg.m * W[i][k]) <= SumW(W, k) + 60 * cfg.m + y * cfg.m
PropOk(W, y, k) == \A i \in Ms : Abs(y[i] * SumW(W, k) - 10000 * W[i][k]) <= SumW(W, k) + 6000 + cfg.m * y[i]
Near(a, b) == Abs(a - b) <= 2 + Abs(b) \div 500
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : y >= x
Mean(s) == SumSeq(s) \div Len(s)

(* quantile q (percent) of a sequence, between the values next to it         *)
Quantile(s, q) ==
  LET t == SortSeq(s, LAMBDA a, b : a < b)
      p == (Len(t) - 1) * q
      a == p \div 100 + 1
  IN IF p % 100 = 0 THEN t[a] ELSE t[a] + ((t[a + 1] - t[a]) * (p % 100)) \div 100

(* ------------------------------ bootstrap -------------------------------- *)
BsProfile(s, e) ==
  CASE e.features # cfg.features -> "features-of-the-data"
    [] \E j \in Ns : Len(e.box[j]) # Len(s.runs) -> "every-run-once"
    [] \E j \in Ns : \E r \in 1..Len(s.runs) : ~PercentOk(s.runs[r].H, e.box[j][r], e.item, j) -> "share-of-the-run"
    [] \E j \in Ns : ~PercentOk(cfg.H, e.base[j], e.item, j) -> "share-of-the-base-model"
    [] e.title # <<cfg.model, e.item>> -> "named-model-and-factor"
    [] OTHER -> ""
BsContribution(s, e) ==
  CASE e.features # cfg.features -> "features-of-the-data"
    [] \E j \in Ns : Len(e.box[j]) # Len(s.runs) -> "every-run-once"
    [] \E j \in Ns : \E r \in 1..Len(s.runs) : ~ConcOk(s.runs[r].W, s.runs[r].H, e.box[j][r], e.item, j) -> "mass-of-the-run"
    [] \E j \in Ns : ~ConcOk(cfg.W, cfg.H, e.base[j], e.item, j) -> "mass-of-the-base-model"
    [] ~e.positive -> "positive-on-a-logarithmic-axis"
    [] e.title # <<cfg.model, e.item>> -> "named-model-and-factor"
    [] OTHER -> ""
(* runs mapped to a factor of the base model, or to none                     *)
BsMapping(s, e) ==
  CASE e.rows # [k \in Fs |-> k] \/ e.cols # [k \in Fs |-> k] -> "every-factor-once"
    [] \E k \in Fs, b \in Fs : e.table[k][b] # Cardinality({r \in 1..Len(s.runs) : s.runs[r].match[k] = b}) -> "mapped-runs"
    [] \E k \in Fs : e.unmapped[k] # Cardinality({r \in 1..Len(s.runs) : s.runs[r].match[k] = 0}) -> "unmapped-runs"
    [] OTHER -> ""
Qs(s) == [r \in 1..Len(s.runs) |-> s.runs[r].Q]      \* 1e-1
BsQ(s, e) ==
  IF Abs(10 * e.q[1] - cfg.Q) > 6 \/ \E x \in 2..6 : Abs(10 * e.q[x] - Quantile(Qs(s), <<0, 0, 25, 50, 75, 100>>[x])) > 7 THEN "quantiles-of-Q" ELSE ""
RunH(s, k, j) == [r \in 1..Len(s.runs) |-> s.runs[r].H[k][j]]
BsTable(s, e) ==
  LET k == e.item
      Dev(j) == LET n == Len(s.runs) mu == Mean(RunH(s, k, j)) IN SumSeq([r \in 1..n |-> (s.runs[r].H[k][j] - mu) * (s.runs[r].H[k][j] - mu)])
  IN CASE e.features # cfg.features -> "features-of-the-data"
       [] \E j \in Ns : Abs(e.base[j] - cfg.H[k][j]) > 2 -> "profile-of-the-base-model"
       [] \E j \in Ns : Abs(e.mean[j] - Mean(RunH(s, k, j))) > 2 -> "mean-of-the-runs"
       [] \E j \in Ns : LET n == Len(s.runs) - 1 IN
            ~(Dev(j) <= n * (e.std[j] + 4) * (e.std[j] + 4) /\ (e.std[j] <= 4 \/ Dev(j) >= n * (e.std[j] - 4) * (e.std[j] - 4))) -> "deviation-of-the-runs"
       [] \E x \in 1..5 : \E j \in Ns : Abs(e.quant[x][j] - Quantile(RunH(s, k, j), <<5, 25, 50, 75, 95>>[x])) > 3 -> "quantiles-of-the-runs"
       [] \E j \in Ns : LET a == Quantile(RunH(s, k, j), 25) b == Quantile(RunH(s, k, j), 75) x == cfg.H[k][j] IN
            (e.within[j] /\ (x < a - 2 \/ x > b + 2)) \/ (~e.within[j] /\ x > a + 2 /\ x < b - 2) -> "within-the-interquartile-range"
       [] e.title # <<e.item>> -> "named-factor"
       [] OTHER -> ""

(* ------------------- displacement and BS-displacement -------------------- *)
(* s.runs: one displacement, or one of every bootstrap run; d of s.dqs       *)
Which(s, dq) == CHOOSE d \in 1..Len(s.dqs) : s.dqs[d] = dq
Vals(s, fld, d, k, j) == [r \in 1..Len(s.runs) |-> s.runs[r][fld][d][k][j]]
Lo(s, fld, d, k, j) == MinS({s.runs[r][fld][d][k][j] : r \in 1..Len(s.runs)})
Hi(s, fld, d, k, j) == MaxS({s.runs[r][fld][d][k][j] : r \in 1..Len(s.runs)})
BaseOf(s, fld, k, j) == Mean([r \in 1..Len(s.runs) |-> s.runs[r][fld][k][j]])
DispRange(s, e, share) ==
  LET dq == E!Chosen(e.kind, e.dq)
      d == Which(s, dq)
      k == e.item
  IN CASE e.features # cfg.features -> "features-of-the-data"
       [] \E j \in Ns : ~Near(e.base[j], BaseOf(s, IF share THEN "p" ELSE "c", k, j)) -> IF share THEN "share-of-the-base-model" ELSE "mass-of-the-base-model"
       [] \E j \in Ns : ~Near(e.lo[j], Lo(s, IF share THEN "plo" ELSE "clo", d, k, j)) -> "lower-end-of-the-displacement"
       [] \E j \in Ns : ~Near(e.hi[j], Hi(s, IF share THEN "phi" ELSE "chi", d, k, j)) -> "upper-end-of-the-displacement"
       [] ~share /\ ~e.positive -> "positive-on-a-logarithmic-axis"
       [] e.title # <<cfg.model, e.item, dq>> -> "named-model-factor-and-dQ"
       [] OTHER -> ""
(* percentage of displacements with a swap, smallest dQ first                *)
DispSummary(s, e) ==
  LET n == Len(s.dqs)
      Total(fld, d, k) == SumSeq([r \in 1..Len(s.runs) |-> s.runs[r][fld][d][k]])
  IN CASE e.cols # [k \in Fs |-> k] -> "every-factor-once"
       [] e.dqs # [x \in 1..n |-> s.dqs[n + 1 - x]] -> "every-dQ-once"
       [] \E x \in 1..n, k \in Fs : Abs(e.swap[x][k] * Total("count", n + 1 - x, k) - 10000 * Total("swaps", n + 1 - x, k)) > Total("count", n + 1 - x, k) -> "share-of-swaps"
       [] OTHER -> ""

(* -------------------------------- summary -------------------------------- *)
Bar(e, k) == e.bars[CHOOSE x \in 1..Len(e.bars) : e.bars[x].kind = k]
RunMass(W, H, k, j) == (((SumW(W, k) \div 10) * H[k][j]) \div 100)
MassNear(x, want, w) == Abs(x - want) <= 4 + w \div 100 + cfg.m + Abs(want) \div 50
SummaryVerdict(i, e) ==
  LET k == e.item
      w == {e.with[x] : x \in 1..Len(e.with)}
      bs == St(i, "Bs")
      Wide == MaxS({SumW(bs.runs[r].W, k) : r \in 1..Len(bs.runs)})
      B(j) == {RunMass(bs.runs[r].W, bs.runs[r].H, k, j) : r \in 1..Len(bs.runs)}
      Anyof(kd, s, b) == \E j \in Ns : LET d == Which(s, E!SummaryDQ) IN ~Near(b.lo[j], Lo(s, "clo", d, k, j)) \/ ~Near(b.hi[j], Hi(s, "chi", d, k, j))
  IN CASE e.drawn # (k \in Fs /\ w \cap {"bs", "disp"} # {}) -> "valid-items-only"
       [] ~e.drawn -> ""
       [] {e.bars[x].kind : x \in 1..Len(e.bars)} # w \/ Len(e.bars) # Cardinality(w) -> "every-method-once"
       [] \E x \in 1..Len(e.bars) : e.bars[x].features # cfg.features -> "features-of-the-data"
       [] "bs" \in w /\ \E j \in Ns : ~MassNear(Bar(e, "bs").lo[j], MinS(B(j)), Wide) \/ ~MassNear(Bar(e, "bs").hi[j], MaxS(B(j)), Wide) -> "range-of-the-bootstrap"
       [] "disp" \in w /\ Anyof("disp", St(i, "Disp"), Bar(e, "disp")) -> "range-of-the-displacement"
       [] "bsdisp" \in w /\ Anyof("bsdisp", St(i, "Bsdisp"), Bar(e, "bsdisp")) -> "range-of-the-BS-displacement"
       [] \E j \in Ns : ~ConcOk(cfg.W, cfg.H, e.base[j], k, j) -> "mass-of-the-base-model"
       [] ~e.positive -> "positive-on-a-logarithmic-axis"
       [] e.title # <<cfg.model, k>> -> "named-model-and-factor"
       [] OTHER -> ""

(* --------------------------- constrained model --------------------------- *)
(* s.constraints [target, i, j, type, lo, hi, dq], s.expressions [terms, dq] *)
(* values of elements in 1e-3, dQ and coefficients in 1e-2                   *)
Val(W, H, t, i, j) == IF t = "feature" THEN H[i][j] ELSE W[i][j]
ConProfile(s, e) ==
  LET k == e.item
      Marked == {j \in Ns : \/ \E x \in 1..Len(s.constraints) : s.constraints[x].target = "feature" /\ s.constraints[x].i = k /\ s.constraints[x].j = j
                            \/ \E x \in 1..Len(s.expressions) : \E y \in 1..Len(s.expressions[x].terms) :
                                  LET t == s.expressions[x].terms[y] IN t.target = "feature" /\ t.i = k /\ t.j = j}
  IN CASE e.features # cfg.features -> "features-of-the-data"
       [] \E j \in Ns : ~PercentOk(cfg.H, e.bp[j], k, j) \/ ~PercentOk(s.H, e.cp[j], k, j) -> "share-of-the-factor"
       [] \E j \in Ns : ~ConcOk(cfg.W, cfg.H, e.bc[j], k, j) \/ ~ConcOk(s.W, s.H, e.cc[j], k, j) -> "mass-of-the-factor"
       [] \E j \in Marked, q \in Ns \ Marked : e.mark[j] = e.mark[q] -> "constrained-elements-are-highlighted"
       [] \E j \in Ns \ Marked, q \in Ns \ Marked : e.mark[j] # e.mark[q] -> "constrained-elements-are-highlighted"
       [] e.title # <<k>> -> "named-factor"
       [] OTHER -> ""
ConContributions(s, e) ==
  LET k == e.item IN
  CASE Len(e.b) # cfg.m \/ Len(e.c) # cfg.m -> "every-sample-once"
    [] \E t \in Ms : ~ContrOk(cfg.W, e.b[t], cfg.ts[t], k) \/ ~ContrOk(s.W, e.c[t], cfg.ts[t], k) -> "contribution-of-the-factor"
    [] e.title # <<k>> -> "named-factor"
    [] OTHER -> ""
ConQ(s, e) ==
  CASE Len(e.y) # s.steps -> "every-iteration-once"
    [] e.x # [t \in 1..s.steps |-> t - 1] -> "every-iteration-once"
    [] e.q = "main" /\ \E t \in 1..s.steps : Abs(e.y[t] - e.true[t] - e.aux[t]) > 2 + Abs(e.y[t]) \div 1000 -> "Q-main-is-the-sum"
    [] e.q \in {"true", "robust", "main"} /\ Abs(e.y[s.steps] - (CASE e.q = "true" -> s.Qtrue [] e.q = "robust" -> s.Qrobust [] OTHER -> s.Qtrue + e.aux[s.steps])) > 2 + Abs(s.Qtrue) \div 500 -> "ends-at-the-Q-of-the-model"
    [] OTHER -> ""
ConConstraints(s, e) ==
  CASE Len(e.rows) # Len(s.constraints) -> "every-constraint-once"
    [] \E x \in 1..Len(e.rows) : LET r == e.rows[x] t == s.constraints[x] IN r.target # t.target \/ r.i # t.i \/ r.j # t.j \/ r.type # t.type -> "constraint-as-added"
    [] \E x \in 1..Len(e.rows) : LET r == e.rows[x] IN Abs(r.base - Val(cfg.W, cfg.H, r.target, r.i, r.j)) > 2 -> "value-in-the-base-model"
    [] \E x \in 1..Len(e.rows) : LET r == e.rows[x] IN Abs(r.value - Val(s.W, s.H, r.target, r.i, r.j)) > 2 -> "value-in-the-solution"
    [] \E x \in 1..Len(e.rows) : LET r == e.rows[x] t == s.constraints[x] IN
         CASE r.type = "set to zero" -> r.lo # 0
           [] r.type = "set to base value" -> Abs(r.lo - Val(cfg.W, cfg.H, r.target, r.i, r.j)) > 2
           [] r.type = "pull to value" -> Abs(r.lo - t.lo) > 2
           [] r.type = "define limits" -> Abs(r.lo - t.lo) > 2 \/ Abs(r.hi - t.hi) > 2
           [] OTHER -> r.lo # NaN -> "target-of-the-constraint"
    [] \E x \in 1..Len(e.rows) : e.rows[x].dq # s.constraints[x].dq -> "limit-of-the-constraint"
    [] OTHER -> ""
Eval(W, H, x) == SumSeq([y \in 1..Len(x.terms) |-> (x.terms[y].coef * Val(W, H, x.terms[y].target, x.terms[y].i, x.terms[y].j)) \div 100])
EvalTol(x) == 3 + 3 * Len(x.terms) + SumSeq([y \in 1..Len(x.terms) |-> Abs(x.terms[y].coef) \div 50])
ConExpressions(s, e) ==
  LET Elements == {[target |-> t.target, i |-> t.i, j |-> t.j] : t \in UNION {{s.expressions[x].terms[y] : y \in 1..Len(s.expressions[x].terms)} : x \in 1..Len(s.expressions)}}
  IN CASE e.drawn # (s.expressions # <<>>) -> "expressions-only"
       [] ~e.drawn -> ""
       [] {[target |-> r.target, i |-> r.i, j |-> r.j] : r \in {e.elements[x] : x \in 1..Len(e.elements)}} # Elements \/ Len(e.elements) # Cardinality(Elements) -> "every-element-once"
       [] \E x \in 1..Len(e.elements) : LET r == e.elements[x] IN Abs(r.base - Val(cfg.W, cfg.H, r.target, r.i, r.j)) > 2 -> "value-in-the-base-model"
       [] \E x \in 1..Len(e.elements) : LET r == e.elements[x] IN Abs(r.value - Val(s.W, s.H, r.target, r.i, r.j)) > 2 -> "value-in-the-solution"
       [] Len(e.rows) # Len(s.expressions) -> "every-expression-once"
       [] \E x \in 1..Len(e.rows) : e.rows[x].terms # s.expressions[x].terms -> "terms-as-added"
       [] \E x \in 1..Len(e.rows) : e.rows[x].dq # s.expressions[x].dq -> "limit-of-the-expression"
       [] \E x \in 1..Len(e.rows) : Abs(e.rows[x].base - Eval(cfg.W, cfg.H, s.expressions[x])) > EvalTol(s.expressions[x]) -> "expression-of-the-base-model"
       [] \E x \in 1..Len(e.rows) : Abs(e.rows[x].value - Eval(s.W, s.H, s.expressions[x])) > EvalTol(s.expressions[x]) -> "expression-of-the-solution"
       [] OTHER -> ""
ConFingerprints(s, e) ==
  CASE e.items # [k \in Fs |-> k] -> "every-factor-once"
    [] e.features # cfg.features -> "features-of-the-data"
    [] \E k \in Fs, j \in Ns : ~PercentOk(cfg.H, e.b[k][j], k, j) \/ ~PercentOk(s.H, e.c[k][j], k, j) -> "share-of-the-factor"
    [] OTHER -> ""
ConSpace(s, e) ==
  CASE e.drawn # (e.item \in Fs /\ e.other \in Fs) -> "valid-items-only"
    [] ~e.drawn -> ""
    [] Len(e.cx) # cfg.m \/ Len(e.cy) # cfg.m -> "every-sample-once"
    [] ~PropOk(s.W, e.cx, e.item) \/ ~PropOk(s.W, e.cy, e.other) -> "contribution-of-the-factor"
    [] e.based /\ (Len(e.bx) # cfg.m \/ Len(e.by) # cfg.m) -> "every-sample-once"
    [] e.based /\ (~PropOk(cfg.W, e.bx, e.item) \/ ~PropOk(cfg.W, e.by, e.other)) -> "contribution-in-the-base-model"
    [] e.based # e.wanted -> "base-model-when-asked-for"
    [] e.axes # <<e.item, e.other>> -> "named-factor"
    [] OTHER -> ""
ConFeature(s, e) ==
  LET j == e.item
      In == {e.pie[x].factor : x \in 1..Len(e.pie)}
  IN CASE e.drawn # (j \in Ns) -> "valid-items-only"
       [] ~e.drawn -> ""
       [] In \cap {k \in Fs : 10000 * s.H[k][j] < (e.threshold - 30) * SumH(s.H, j)} # {} \/ {k \in Fs : 10000 * s.H[k][j] > (e.threshold + 30) * SumH(s.H, j)} \ In # {}
            \/ Cardinality(In) # Len(e.pie) -> "factors-above-the-threshold"
       [] \E x \in 1..Len(e.pie) : ~PercentOk(s.H, e.pie[x].percent, e.pie[x].factor, j) -> "share-of-the-factor"
       [] \E k \in Fs : Len(e.contr[k]) # cfg.m -> "every-sample-once"
       [] \E k \in Fs : ~PropOk(s.W, [i \in Ms |-> e.contr[k][CHOOSE t \in Ms : cfg.ts[t] = i]], k) -> "contribution-of-the-factor"
       [] e.feature # j -> "named-feature"
       [] OTHER -> ""

FactorFig(e) == e.ev \in {"bs.profile", "bs.contribution", "bs.table", "disp.profile", "disp.contribution", "con.profile", "con.contributions"}
States == {"Bs", "Disp", "Bsdisp", "Con"}
Verdict(i) ==
  LET e == ev[i] IN
  CASE e.ev \in States -> ""
    [] e.ev = "Crash" -> "unexpected-exception"
    [] ~e.kept -> "figures-change-nothing"
    [] FactorFig(e) /\ e.drawn # (e.item \in Fs) -> "valid-items-only"
    [] FactorFig(e) /\ ~e.drawn -> ""
    [] e.ev = "bs.profile" -> BsProfile(St(i, "Bs"), e)
    [] e.ev = "bs.contribution" -> BsContribution(St(i, "Bs"), e)
    [] e.ev = "bs.table" -> BsTable(St(i, "Bs"), e)
    [] e.ev = "bs.mapping" -> BsMapping(St(i, "Bs"), e)
    [] e.ev = "bs.q" -> BsQ(St(i, "Bs"), e)
    [] e.ev = "disp.profile" -> DispRange(St(i, e.state), e, TRUE)
    [] e.ev = "disp.contribution" -> DispRange(St(i, e.state), e, FALSE)
    [] e.ev = "disp.summary" -> DispSummary(St(i, e.state), e)
    [] e.ev = "summary" -> SummaryVerdict(i, e)
    [] e.ev = "con.profile" -> ConProfile(St(i, "Con"), e)
    [] e.ev = "con.contributions" -> ConContributions(St(i, "Con"), e)
    [] e.ev = "con.q" -> ConQ(St(i, "Con"), e)
    [] e.ev = "con.constraints" -> ConConstraints(St(i, "Con"), e)
    [] e.ev = "con.expressions" -> ConExpressions(St(i, "Con"), e)
    [] e.ev = "con.fingerprints" -> ConFingerprints(St(i, "Con"), e)
    [] e.ev = "con.gspace" -> ConSpace(St(i, "Con"), e)
    [] e.ev = "con.feature" -> ConFeature(St(i, "Con"), e)
    [] OTHER -> "unexpected-exception"
Step == /\ err = "" /\ l <= Len(ev)
        /\ err' = Verdict(l)
        /\ l' = IF err' = "" THEN l + 1 ELSE l
        /\ UNCHANGED c
TSpec == TInit /\ [][Step]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
