------------------------------- MODULE Express -------------------------------
(* An expression c[1]*v[1] + c[2]*v[2] = 0 of a constrained training.  In    *)
(* every iteration its elements move towards the nearest values of its zero  *)
(* (or of its smallest residual, all values being positive), as far as the   *)
(* limit of the loss allows; the factorization then updates them freely.     *)
(* Values count in quarters, so a quarter of a way is a value.               *)
EXTENDS Integers, FiniteSets
CONSTANTS N, Coefs, Limits, MaxIter
VARIABLES c, lim, v, moved, iter
vars == <<c, lim, v, moved, iter>>
Abs0(a) == IF a < 0 THEN 0 - a ELSE a
Pts == {<<4 * a, 4 * b>> : a \in 1..N, b \in 1..N}
Res(k, p) == Abs0(k[1] * p[1] + k[2] * p[2])
Dist(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Least(k) == CHOOSE r \in {Res(k, p) : p \in Pts} : \A q \in Pts : r <= Res(k, q)
Aims(k, p) == LET best == {q \in Pts : Res(k, q) = Least(k)} IN {q \in best : \A z \in best : Dist(p, q) <= Dist(p, z)}
Along(p, q, t) == <<p[1] + (t * (q[1] - p[1])) \div 4, p[2] + (t * (q[2] - p[2])) \div 4>>
(* The loss grows with the square of the move.                               *)
Rise(p, q) == Dist(p, q)
Init == /\ c \in {<<a, s * b>> : a \in Coefs, b \in Coefs, s \in {1, -1}} /\ lim \in Limits /\ v \in Pts /\ moved = v /\ iter = 0
Move == /\ iter < MaxIter
        /\ \E q \in Aims(c, v) :
             LET ts == {t \in 0..4 : Rise(v, Along(v, q, t)) <= lim}
                 t == CHOOSE x \in ts : \A y \in ts : y <= x
             IN moved' = Along(v, q, t)
        /\ v' \in Pts
        /\ iter' = iter + 1
        /\ UNCHANGED <<c, lim>>
Next == Move
Spec == Init /\ [][Next]_vars
NeverAway == [][Res(c, moved') <= Res(c, v)]_vars
LimitKept == [][Rise(v, moved') <= lim]_vars
SolvedWhenAllowed == [][(\A q \in Aims(c, v) : Rise(v, q) <= lim) => Res(c, moved') = Least(c)]_vars
Positive == moved[1] > 0 /\ moved[2] > 0
Rest == [][Res(c, v) = Least(c) => moved' = v]_vars
=============================================================================
