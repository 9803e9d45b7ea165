-------------------------------- MODULE Match --------------------------------
(* Comparison of factor solutions in exact arithmetic: the swap test between *)
(* two profile sets of equal size, and the one-to-one assignment of the      *)
(* factors of one solution to those of another.                              *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
SumXY(x, y) == SumSeq([i \in 1..Len(x) |-> x[i] * y[i]])
Cov(x, y) == Len(x) * SumXY(x, y) - SumSeq(x) * SumSeq(y)
Var(x) == Cov(x, x)
(* r^2(x, a) < r^2(x, b), all variances positive                             *)
R2Lt(x, a, b) == (Cov(x, a) * Cov(x, a)) * Var(b) < (Cov(x, b) * Cov(x, b)) * Var(a)
Varied(A) == \A i \in 1..Len(A) : Var(A[i]) > 0

(* some factor is better correlated with a differently numbered factor       *)
Swapped(A, B) == \E i, j \in 1..Len(A) : R2Lt(A[i], B[i], B[j])

(* one-to-one maps of 1..n into 1..m (n <= m)                                *)
RECURSIVE Inj(_, _)
Inj(n, S) == IF n = 0 THEN {<<>>}
             ELSE UNION {{<<x>> \o t : t \in Inj(n - 1, S \ {x})} : x \in S}
Maps(n, m) == Inj(n, 1..m)
Value(mat, map) == SumSeq([i \in 1..Len(map) |-> mat[i][map[i]]])
Top(mat, n, m) == LET V == {Value(mat, p) : p \in Maps(n, m)} IN CHOOSE v \in V : \A w \in V : w <= v
Low(mat, n, m) == LET V == {Value(mat, p) : p \in Maps(n, m)} IN CHOOSE v \in V : \A w \in V : w >= v
OneToOne(map, n, m) == /\ Len(map) = n
                       /\ \A i \in 1..n : map[i] \in 1..m
                       /\ \A i, j \in 1..n : i # j => map[i] # map[j]
Transpose(mat, n, m) == [j \in 1..m |-> [i \in 1..n |-> mat[i][j]]]

-----------------------------------------------------------------------------
CONSTANTS Vals, Feat, K, MVals
VARIABLES A, B, mat
vars == <<A, B, mat>>
Profile == {x \in [1..Feat -> Vals] : Var(x) > 0}
Zero == [i \in 1..K |-> [j \in 1..K |-> 0]]
Init == \/ A \in [1..K -> Profile] /\ B \in [1..K -> Profile] /\ mat = Zero
        \/ A = <<>> /\ B = <<>> /\ mat \in [1..K -> [1..K -> MVals]]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Scale(X, f) == [i \in 1..Len(X) |-> [j \in 1..Len(X[i]) |-> f * X[i][j]]]
Collinear(X) == \E i, j \in 1..Len(X) : i # j /\ Cov(X[i], X[j]) * Cov(X[i], X[j]) = Var(X[i]) * Var(X[j])
SelfNeverSwaps == ~Swapped(A, A)
ScaleFree == Swapped(Scale(A, 2), B) = Swapped(A, B) /\ Swapped(A, Scale(B, 3)) = Swapped(A, B)
(* renumbering a set of distinct factors is a swap                           *)
RenumberSwaps == A # <<>> /\ ~Collinear(A) =>
  \A p \in Maps(K, K) : p # [i \in 1..K |-> i] => Swapped(A, [i \in 1..K |-> A[p[i]]])
(* when every row prefers its own column the preferences are the assignment  *)
RowTop(i) == CHOOSE j \in 1..K : \A l \in 1..K : mat[i][l] <= mat[i][j]
Shortcut == LET p == [i \in 1..K |-> RowTop(i)] IN OneToOne(p, K, K) => Value(mat, p) = Top(mat, K, K)
(* exchanging the two sides does not change the value of the assignment      *)
Symmetric == Top(mat, K, K) = Top(Transpose(mat, K, K), K, K) /\ Low(mat, K, K) <= Top(mat, K, K)
=============================================================================
