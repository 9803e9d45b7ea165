---------------------------- MODULE Blocks_Trace ----------------------------
(* Recorded datasets.  cfg: n samples.  Length: a feature, its              *)
(* autocorrelations (rho, 1e-6), the critical value (crit, 1e-6) and, for    *)
(* every m, the autocovariances at lags 0..m over the samples after the m-th *)
(* (acv[m], 1e-5 of the one at lag 0), and the lengths reported (1e-2).      *)
(* Block: the size recommended for the features named.                       *)
EXTENDS Blocks, TraceBase
VARIABLES c, l, err, lens
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err, lens>>
TInit == c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ lens = <<>> /\ series = <<>> /\ active = {} /\ rec = 0
Ab(x) == IF x < 0 THEN 0 - x ELSE x
SigOf(e) == [k \in 1..Len(e.rho) |-> Ab(e.rho[k]) >= e.crit]
(* the parts a feature decides without rounding                              *)
Clear(e) == \A k \in 1..Len(e.rho) : Ab(Ab(e.rho[k]) - e.crit) > 4
MOf(e) == Lags(SigOf(e), 5)
(* g and s in 1e-4                                                           *)
GOf(e) == Ab(GSum(e.acv[MOf(e)], MOf(e), MOf(e))) \div (10 * MOf(e))
SOf(e) == Ab(SSum(e.acv[MOf(e)], MOf(e), MOf(e))) \div (10 * MOf(e))
Judged(e) == ~e.none /\ ~e.wild /\ Clear(e) /\ SOf(e) >= 2000
Top == 30 * BMax(cfg.n)
(* g/s in 1e-3, and the length in 1/30, between rounding errors              *)
T1(e) == LET t == (1000 * GOf(e)) \div SOf(e) IN Mx(0, t - 3 - t \div 300)
T2(e) == LET t == (1000 * GOf(e)) \div SOf(e) IN t + 3 + t \div 300
(* 30^3 n (3/2) t^2                                                          *)
Cube(t, num) == IF t > 15500 THEN 2000000000
                ELSE IF t > 1000 THEN ((num * cfg.n) \div 2) * ((t * t) \div 1000) ELSE (((num * cfg.n) \div 2) * ((t * t) \div 10)) \div 100
Lo(e, num) == Mn(Top, Root(Mn(Cube(T1(e), num), 1370000000), 0, 1110))
Hi(e, num) == Mn(Top, Root(Mn(Cube(T2(e), num), 1370000000), 0, 1110) + 1)
Near(v, e, num) == 3 * v >= 10 * Lo(e, num) - 15 /\ 3 * v <= 10 * Hi(e, num) + 15
LengthVerdict(e) ==
  CASE Len(e.rho) # MMax(cfg.n) -> "lags-looked-at"
    [] e.none -> ""
    [] e.cb > 100 * BMax(cfg.n) \/ e.sb > 100 * BMax(cfg.n) -> "longest-block"
    [] Judged(e) /\ e.cb >= 0 /\ ~Near(e.cb, e, 81) -> "circular-block-length"
    [] Judged(e) /\ e.sb >= 0 /\ ~Near(e.sb, e, 54) -> "stationary-block-length"
    [] OTHER -> ""
RECURSIVE SumLo(_, _), SumHi(_, _)
SumLo(fs, i) == IF i = 0 THEN 0 ELSE Lo(lens[fs[i]], 81) + SumLo(fs, i - 1)
SumHi(fs, i) == IF i = 0 THEN 0 ELSE Hi(lens[fs[i]], 81) + SumHi(fs, i - 1)
BlockVerdict(e) ==
  LET k == Len(e.feats)
      fs == e.feats
  IN CASE e.block < 1 \/ e.block > cfg.n -> "usable-block"
       [] (\E i \in 1..k : lens[fs[i]].none) -> IF e.block = Default(cfg.n) THEN "" ELSE "default-block"
       [] e.block > BMax(cfg.n) -> "longest-block"
       [] (\A i \in 1..k : Judged(lens[fs[i]]))
            /\ (e.block < Mx(1, SumLo(fs, k) \div (30 * k)) \/ e.block > Mx(1, SumHi(fs, k) \div (30 * k))) -> "recommended-block"
       [] OTHER -> ""
Verdict(e) == CASE e.ev = "Length" -> LengthVerdict(e)
                [] e.ev = "Block" -> BlockVerdict(e)
                [] e.ev = "Same" -> IF e.ok THEN "" ELSE e.what
                [] OTHER -> "unexpected-exception"
Step == /\ err = "" /\ l <= Len(ev)
        /\ LET v == Verdict(ev[l]) IN
             IF v = "" THEN /\ l' = l + 1 /\ err' = ""
                            /\ lens' = IF ev[l].ev = "Length" THEN Append(lens, ev[l]) ELSE lens
             ELSE l' = l /\ err' = v /\ lens' = lens
        /\ UNCHANGED <<vars, c>>
TSpec == TInit /\ [][Step]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
