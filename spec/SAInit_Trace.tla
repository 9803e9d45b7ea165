---------------------------- MODULE SAInit_Trace ----------------------------
(* Recorded lives of models.  cfg: v (cells), u (exponents), method, seed,  *)
(* m, n, k, dataOk.  Digests (wd, hd, rd) are interned integers: equal      *)
(* exactly when the arrays are bitwise equal.                               *)
EXTENDS SAInit, TraceBase
VARIABLES c, l, err, st

cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<s, log, c, l, err, st>>

(* st: the model, the digests last seen, and every seeded start seen        *)
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = ""
         /\ s = NewModel(TRUE) /\ log = <<>>
         /\ st = [w |-> 0, h |-> 0, r |-> 0, seen |-> {}, ends |-> {}]

BuildVerdict(e) ==
  CASE e.v # e.gv -> "data-kept"
    [] \E i \in 1..Len(e.u) : \E j \in 1..Len(e.u[i]) : e.u[i][j] # KeptU(e.gu[i][j]) -> "uncertainty-floor"
    [] \E i \in 1..Len(e.u) : \E j \in 1..Len(e.u[i]) : e.we[i][j] # Weight(e.gu[i][j]) -> "weights-inverse-square"
    [] e.method # MethodOf(e.gmethod) -> "method-name"
    [] e.seed # (IF e.gseed = NaN THEN 42 ELSE e.gseed) -> "seed"
    [] e.k # e.gk -> "factor-count"
    [] e.meta # <<Len(e.v), Len(e.v[1]), e.gk, e.seed, e.method>> -> "build-metadata"
    [] OTHER -> ""

AllIn(mat, P(_)) == \A i \in 1..Len(mat) : \A j \in 1..Len(mat[i]) : P(mat[i][j])

PartOk(e) ==    \* a partial H: normalised columns, given cells keep their proportions
  LET p == Len(e.hg) IN
  /\ \A j \in 1..e.n : Abs(e.hcol[j] - 1000000) <= 20
  /\ \A a, b \in 1..p : \A j \in 1..e.n :
        (e.hg[a][j] > 0 /\ e.hg[b][j] > 0) =>
           Abs(e.hfx[a][j] * e.hg[b][j] - e.hfx[b][j] * e.hg[a][j]) <= 8 * (e.hg[a][j] + e.hg[b][j])
  /\ \A a \in 1..p : \A j \in 1..e.n : (e.hg[a][j] <= 0 /\ \E b \in 1..p : e.hg[b][j] > 0) => e.hfx[a][j] <= 8

InitVerdict(e) ==
  CASE e.hshape # <<e.k, e.n>> -> "profile-shape"
    [] e.wk # "shape" /\ e.wshape # <<e.m, e.k>> -> "contribution-shape"
    [] e.hk = "ok" /\ \E i \in 1..e.k : \E j \in 1..e.n : e.h[i][j] # KeptH(e.hg[i][j]) -> "supplied-profile-used"
    [] e.wk = "ok" /\ e.w # e.wg -> "supplied-contribution-used"
    [] s.dataOk /\ e.hk # "nan" /\ ~AllIn(e.hpos, LAMBDA x : x) -> "profile-positive"
    [] s.dataOk /\ e.method = "ls-nmf" /\ e.wk = "none" /\ ~AllIn(e.wpos, LAMBDA x : x) -> "contribution-positive"
    [] s.dataOk /\ e.hk = "part" /\ ~PartOk(e) -> "partial-profile"
    [] s.dataOk /\ e.wk = "none" /\ ~e.wfin -> "contribution-finite"
    [] e.fresh /\ \E x \in st.seen : x.base = e.base /\ x.seed = e.seed
                       /\ (x.wd # e.wd \/ x.hd # e.hd) -> "seed-reproduces"
    [] e.fresh /\ e.random /\ \E x \in st.seen : x.base = e.base /\ x.seed # e.seed
                       /\ (x.wd = e.wd \/ (e.hk = "none" /\ x.hd = e.hd)) -> "seed-ignored"
    [] OTHER -> ""

(* Drawn starting values: a normal deviate times the square root of the     *)
(* column's (row's) mean share of one factor.  Forty draws decide both ways.*)
ScaleVerdict(e) ==
  CASE \E j \in 1..Len(e.zh) : e.zh[j] > 700 \/ e.zh[j] < 30 -> "profile-scale"
    [] \E i \in 1..Len(e.zw) : e.zw[i] > 700 \/ e.zw[i] < 30 -> "contribution-scale"
    [] OTHER -> ""

(* k-means: a sample belongs to the cluster of its largest contribution;    *)
(* the others get the equal share; a profile is the mean of its members.    *)
RECURSIVE SumMem(_, _, _, _)
SumMem(e, mem, j, i) == IF i = 0 THEN 0 ELSE (IF i \in mem THEN e.obs[i][j] ELSE 0) + SumMem(e, mem, j, i - 1)
ClustersVerdict(e) ==
  LET m == Len(e.w)
      share == 1000 \div e.k
      Own(i) == CHOOSE a \in 1..e.k : \A b \in 1..e.k : e.w[i][a] >= e.w[i][b]
      Mem(a) == {i \in 1..m : Own(i) = a}
  IN CASE e.k > 1 /\ \E i \in 1..m : \E a \in 1..e.k : a # Own(i) /\ Abs(e.w[i][a] - share) > 1 -> "kmeans-other-shares"
       [] \E i \in 1..m : e.w[i][Own(i)] < 350 \/ e.w[i][Own(i)] > 1650 -> "kmeans-own-share"
       [] \E a \in 1..e.k : Mem(a) # {} /\ \E j \in 1..Len(e.h[1]) :
            Abs(e.h[a][j] * Cardinality(Mem(a)) - SumMem(e, Mem(a), j, m)) > 2 * Cardinality(Mem(a)) -> "kmeans-centroid"
       [] OTHER -> ""

TrainVerdict(e) ==
  LET acc == Accepts(s) IN
  CASE ~acc /\ e.ret # "-1" -> "invalid-input-not-refused"
    [] ~acc /\ s.inited /\ (e.wd # st.w \/ e.hd # st.h) -> "refusal-changes-matrices"
    [] ~acc /\ e.rd # st.r -> "refusal-changes-results"
    [] acc /\ e.ret # "none" -> "valid-input-refused"
    [] acc /\ ~e.results -> "no-results"
    [] acc /\ \E x \in st.ends : x.base = e.base /\ x.seed = e.seed
                       /\ (x.wd # e.wd \/ x.hd # e.hd) -> "auto-initialisation-differs"
    [] OTHER -> ""

Verdict(e) == CASE e.ev = "Build" -> BuildVerdict(e)
                [] e.ev = "Init"  -> InitVerdict(e)
                [] e.ev = "Train" -> TrainVerdict(e)
                [] e.ev = "Scale" -> ScaleVerdict(e)
                [] e.ev = "Clusters" -> ClustersVerdict(e)
                [] OTHER -> "unexpected-exception"

ApplyS(e) == CASE e.ev = "Build" -> NewModel(e.dataOk)
               [] e.ev = "Init"  -> DoInit(s, e.wk, e.hk)
               [] e.ev = "Train" -> DoTrain(s)
               [] OTHER -> s
ApplySt(e) == CASE e.ev = "Build" -> [st EXCEPT !.w = 0, !.h = 0, !.r = e.rd]
                [] e.ev = "Init"  -> [st EXCEPT !.w = e.wd, !.h = e.hd,
                     !.seen = IF e.fresh THEN @ \cup {[base |-> e.base, seed |-> e.seed, wd |-> e.wd, hd |-> e.hd]} ELSE @]
                [] e.ev = "Train" -> [st EXCEPT !.w = e.wd, !.h = e.hd, !.r = e.rd,
                     !.ends = IF e.base # "" /\ e.ret = "none"
                              THEN @ \cup {[base |-> e.base, seed |-> e.seed, wd |-> e.wd, hd |-> e.hd]} ELSE @]
                [] OTHER -> st

TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN s' = ApplyS(ev[l]) /\ st' = ApplySt(ev[l]) /\ l' = l + 1 /\ err' = ""
              ELSE s' = s /\ st' = st /\ l' = l /\ err' = v
         /\ UNCHANGED <<c, log>>
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
