----------------------------- MODULE Loss_Trace -----------------------------
(* Metric calls and trained models, with integer V, W, H and uncertainties  *)
(* 2^e.  Losses are logged in units of 1/160.                               *)
EXTENDS Loss, TraceBase
VARIABLES c, l, err
ev  == Cases[c].ev
tvars == <<res, alpha, c, l, err>>
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ res = <<>> /\ alpha = 0

Near(x, q) == Abs(x - q) <= 3 + q \div 20000
MetricVerdict(e) ==
  LET s == S4(e.V, e.E, e.W, e.H) IN
  CASE ~Near(e.q, 10 * QTrue(s)) -> "true-loss"
    [] ~Near(e.plain, 160 * QPlain(e.V, e.W, e.H)) -> "unweighted-loss"
    [] ~Near(e.calcq, 10 * QTrue(s)) -> "residual-loss"
    [] \E i \in 1..Len(e.alphas) : ~Near(e.qr[i], 10 * QRobust(s, e.alphas[i])) -> "robust-loss"
    [] \E i \in 1..Len(e.alphas) : e.qr[i] > e.q + 3 + e.q \div 20000 -> "robust-above-true"
    [] \E a \in 1..Len(e.alphas) : \E i \in 1..Len(s) : \E j \in 1..Len(s[1]) :
         (IF s[i][j] <= e.alphas[a] THEN Abs(e.up[a][i][j] - 10000) > 2
          ELSE Abs(e.up[a][i][j] * e.alphas[a] - 10000 * s[i][j]) > s[i][j] + e.alphas[a] * 2)
         -> "robust-uncertainty"
    [] e.changed -> "metric-changes-its-input"
    [] e.pos /\ Len(e.qf) # Len(e.H) -> "one-loss-per-factor"
    [] e.pos /\ \E f \in 1..Len(e.H) :
         Abs(e.qf[f] - QFactor(e.V, e.E, e.W, e.H, f) \div 10) > 5 + e.qf[f] \div 20000
         -> "factor-loss"
    [] e.pos /\ Abs(Sum(e.qf) - 10 * QTrue(s)) > 3 + Len(e.qf) + (10 * QTrue(s)) \div 20000 -> "factor-losses-add-up"
    [] OTHER -> ""

ModelVerdict(e) ==
  LET s == S4(e.V, e.E, e.W, e.H) IN
  CASE e.gotW # e.W \/ e.gotH # e.H -> "final-matrices"
    [] e.WH # Product(e.W, e.H) -> "reconstruction"
    [] ~Near(e.q, 10 * QTrue(s)) -> "model-true-loss"
    [] ~Near(e.qr, 10 * QRobust(s, e.alpha)) -> "model-robust-loss"
    [] Abs(e.qlast - e.q) > 1 + e.q \div 20000 -> "last-recorded-loss"
    [] e.meta # e.given -> "metadata"
    [] OTHER -> ""

(* real trainings: the model's numbers recomputed by independent arithmetic *)
RealVerdict(e) ==
  CASE \E i \in 1..Len(e.wh) : \E j \in 1..Len(e.wh[1]) :
           Abs(e.wh[i][j] - e.prod[i][j]) > 2 + Abs(e.prod[i][j]) \div 20000 -> "reconstruction"
    [] Abs(e.q - Sum(e.cells)) > Len(e.cells) + e.q \div 5000 -> "model-true-loss"
    [] Abs(e.qr - Sum([i \in 1..Len(e.cells) |-> IF e.big[i] THEN e.rob[i] ELSE e.cells[i]])) > Len(e.cells) + e.q \div 5000
         -> "model-robust-loss"
    [] Abs(e.qlast - e.q) > 1 + e.q \div 20000 -> "last-recorded-loss"
    [] e.meta # e.given -> "metadata"
    [] e.dataChanged -> "training-changes-data"
    [] OTHER -> ""

SummaryVerdict(e) ==
  CASE e.words # e.wantWords -> "summary-describes-the-model"
    [] \E i \in 1..4 : Abs(e.nums[i] - e.wantNums[i]) > 1 + (e.wantNums[i] \div 100000) -> "summary-shows-the-losses"
    [] OTHER -> ""

Verdict(e) == CASE e.ev = "Metric" -> MetricVerdict(e)
                [] e.ev = "Model"  -> ModelVerdict(e)
                [] e.ev = "Real"   -> RealVerdict(e)
                [] e.ev = "Summary" -> SummaryVerdict(e)
                [] OTHER -> "unexpected-exception"
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN l' = l + 1 /\ err' = "" ELSE l' = l /\ err' = v
         /\ UNCHANGED <<c, res, alpha>>
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
