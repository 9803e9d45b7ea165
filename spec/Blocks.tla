------------------------------- MODULE Blocks -------------------------------
(* The block size recommended for the bootstrap of a dataset (Politis and    *)
(* White).  For every included feature the autocorrelations at lags 1..M are *)
(* significant or not; the horizon is the first lag from which Kn lags are   *)
(* insignificant, otherwise the largest significant lag.  The length follows *)
(* from the weighted autocovariances up to twice the horizon.  The mean over *)
(* the features, rounded down, is recommended; a feature without             *)
(* autocorrelations (constant, too few samples) leaves a fifth of the        *)
(* samples.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Mx(a, b) == IF a >= b THEN a ELSE b
Mn(a, b) == IF a <= b THEN a ELSE b
Quiet(sig, a, kn) == \A q \in a..(a + kn - 1) : ~sig[q]
Starts(sig, kn) == {a \in 1..(Len(sig) + 1 - kn) : Quiet(sig, a, kn)}
Loud(sig) == {q \in 1..Len(sig) : sig[q]}
Horizon(sig, kn) == IF Starts(sig, kn) # {} THEN MinOf(Starts(sig, kn)) ELSE MaxOf(Loud(sig))
Lags(sig, kn) == Mn(2 * Horizon(sig, kn), Len(sig))
(* weight of lag k out of m, in 1/m                                          *)
Lam(k, m) == IF 2 * k < m THEN m ELSE 2 * (m - k)
RECURSIVE GSum(_, _, _), SSum(_, _, _)
GSum(acv, m, k) == IF k = 0 THEN 0 ELSE 2 * Lam(k, m) * k * acv[k + 1] + GSum(acv, m, k - 1)
SSum(acv, m, k) == IF k = 0 THEN m * acv[1] ELSE 2 * Lam(k, m) * acv[k + 1] + SSum(acv, m, k - 1)
(* largest b in lo..hi with b^3 <= x                                         *)
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF lo = hi THEN lo
                   ELSE LET mid == (lo + hi + 1) \div 2 IN IF mid * mid * mid <= x THEN Root(x, mid, hi) ELSE Root(x, lo, mid - 1)
CeilSqrt(x) == MinOf({r \in 0..(x + 1) : r * r >= x})
(* no block is longer than min(3 sqrt(n), n/3), rounded up                   *)
BMax(n) == IF n >= 81 THEN MinOf({r \in 0..n : r * r >= 9 * n}) ELSE (n + 2) \div 3
MMax(n) == CeilSqrt(n) + 5
Default(n) == Mx(1, n \div 5)

CONSTANTS M, Kn, N, Feats, Acv
VARIABLES series, active, rec
vars == <<series, active, rec>>
None == <<>>                                 \* a feature without autocorrelations
Sig(a) == [k \in 1..M |-> 2 * (IF a[k + 1] < 0 THEN 0 - a[k + 1] ELSE a[k + 1]) >= a[1]]
Length(a) == LET m == Lags(Sig(a), Kn)
                 g == GSum(a, m, m)
                 s == SSum(a, m, m)
             IN IF s = 0 THEN BMax(N) ELSE Mn(BMax(N), Root((3 * N * g * g) \div (2 * s * s), 0, BMax(N) + 1))
RECURSIVE Total(_, _)
Total(S, ser) == IF S = {} THEN 0 ELSE LET f == CHOOSE x \in S : TRUE IN Length(ser[f]) + Total(S \ {f}, ser)
Recommended(S, ser) == IF \E f \in S : ser[f] = None THEN Default(N) ELSE Mx(1, Total(S, ser) \div Cardinality(S))
Cand == {<<2>> \o a : a \in [1..M -> Acv \cup {0 - x : x \in Acv}]} \cup {None}
Init == /\ series \in [Feats -> Cand] /\ active = Feats /\ rec = Recommended(Feats, series)
Exclude(f) == /\ f \in active /\ Cardinality(active) > 1
              /\ active' = active \ {f} /\ rec' = Recommended(active', series) /\ UNCHANGED series
Include(f) == /\ f \in Feats \ active
              /\ active' = active \cup {f} /\ rec' = Recommended(active', series) /\ UNCHANGED series
Next == \E f \in Feats : Exclude(f) \/ Include(f)
Spec == Init /\ [][Next]_vars
Usable == rec >= 1 /\ rec <= N
HorizonExists == \A f \in Feats : series[f] # None => Lags(Sig(series[f]), Kn) \in 1..M
NothingMissed == \A f \in Feats : series[f] # None =>
                   LET s == Sig(series[f])
                       h == Horizon(s, Kn)
                   IN \/ \A q \in h..Mn(h + Kn - 1, M) : ~s[q]
                      \/ s[h] /\ \A q \in (h + 1)..M : ~s[q]
Independent == \A f \in Feats : series[f] # None => Length(series[f]) <= BMax(N)
                 /\ (Loud(Sig(series[f])) = {} /\ (\A k \in 2..(M + 1) : series[f][k] = 0) => Length(series[f]) = 0)
Within == [][\A f \in Feats : TRUE => rec' <= Mx(BMax(N), Default(N))]_vars
=============================================================================
