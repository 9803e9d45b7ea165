-------------------------------- MODULE Loss --------------------------------
(* What a model's reported losses mean, cell by cell, in exact arithmetic.  *)
(* A scaled residual is held as the integer 4*|residual|/uncertainty, and a *)
(* loss as 16 times its value.                                              *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Flat(mat) == [i \in 1..Len(mat) |-> Sum(mat[i])]

RECURSIVE Dot(_, _, _, _)
Dot(W, H, i, j) == Sum([f \in 1..Len(H) |-> W[i][f] * H[f][j]])
Product(W, H) == [i \in 1..Len(W) |-> [j \in 1..Len(H[1]) |-> Dot(W, H, i, j)]]

AbsV(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow2(_)
Pow2(e) == IF e <= 0 THEN 1 ELSE 2 * Pow2(e - 1)

(* V, W, H integers; U = 2^e for e <= 2                                      *)
S4(V, E, W, H) ==
  LET P == Product(W, H)
  IN [i \in 1..Len(V) |-> [j \in 1..Len(V[1]) |-> AbsV(V[i][j] - P[i][j]) * Pow2(2 - E[i][j])]]

CellTrue(s)      == s * s
CellRobust(s, a) == IF s <= a THEN s * s ELSE s * a      \* a is 4*alpha

MapSum(mat, F(_)) == Sum([i \in 1..Len(mat) |-> Sum([j \in 1..Len(mat[i]) |-> F(mat[i][j])])])
QTrue(s4)      == MapSum(s4, LAMBDA s : CellTrue(s))
QRobust(s4, a) == MapSum(s4, LAMBDA s : CellRobust(s, a))
QPlain(V, W, H) == LET P == Product(W, H)
                   IN Sum([i \in 1..Len(V) |-> Sum([j \in 1..Len(V[1]) |-> (V[i][j] - P[i][j]) * (V[i][j] - P[i][j])])])

(* 100 times factor f's share of the loss: cells in proportion to what the *)
(* factor contributes to the reconstruction.                                *)
QFactor(V, E, W, H, f) ==
  LET P == Product(W, H)
      s == S4(V, E, W, H)
  IN Sum([i \in 1..Len(V) |-> Sum([j \in 1..Len(V[1]) |->
           (s[i][j] * s[i][j] * W[i][f] * H[f][j] * 100) \div P[i][j]])])

-----------------------------------------------------------------------------
CONSTANTS SVals, AVals, Cells
VARIABLES res, alpha
Init == res = <<>> /\ alpha \in AVals
Next == Len(res) < Cells /\ \E s \in SVals: res' = Append(res, s) /\ UNCHANGED alpha
Spec == Init /\ [][Next]_<<res, alpha>>

T == QTrue(<<res>>)
R(a) == QRobust(<<res>>, a)
RobustBelowTrue == R(alpha) <= T
EqualWhenInside == (\A i \in 1..Len(res): res[i] <= alpha) => R(alpha) = T
StrictWhenOutside == (\E i \in 1..Len(res): res[i] > alpha) => R(alpha) < T
AlphaMonotone == \A b \in AVals: b >= alpha => R(b) >= R(alpha)
NeverNegative == R(alpha) >= 0
Grows == [][QTrue(<<res'>>) >= T /\ QRobust(<<res'>>, alpha) >= R(alpha)]_<<res, alpha>>
=============================================================================
