-------------------------------- MODULE NMF --------------------------------
(* One training iteration of the two factorisation methods, transcribed     *)
(* over integer matrices (sequences of rows).                               *)
(*                                                                          *)
(*   V  samples x features   data            We  weights 1/U^2              *)
(*   W  samples x factors    contributions   H   factors x features         *)
(*                                                                          *)
(* The operators give numerators and denominators separately, so recorded   *)
(* values are compared by cross multiplication.                             *)
EXTENDS Integers, Sequences

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))

Rows(A) == 1..Len(A)
Cols(A) == 1..Len(A[1])

(* (W H)[i][j]                                                              *)
Prod(W, H, i, j) == Sum([k \in 1..Len(H) |-> W[i][k] * H[k][j]])

(* ---- ls-nmf: H' = H * HNum / HDen, W' = W * WNum / WDen ---------------- *)
HNum(V, We, W, k, j) == Sum([i \in 1..Len(V) |-> W[i][k] * We[i][j] * V[i][j]])
HDen(We, W, H, k, j) == Sum([i \in 1..Len(We) |-> W[i][k] * We[i][j] * Prod(W, H, i, j)])
WNum(V, We, H, i, k) == Sum([j \in 1..Len(V[1]) |-> We[i][j] * V[i][j] * H[k][j]])
WDen(We, W, H, i, k) == Sum([j \in 1..Len(We[1]) |-> We[i][j] * Prod(W, H, i, j) * H[k][j]])

(* ---- ws-nmf: row i of W' solves  sum_q W'[i][q] * A(i,q,k) = WNum(i,k) - *)
A(We, H, i, q, k) == Sum([j \in 1..Len(We[1]) |-> H[q][j] * We[i][j] * H[k][j]])
(* and H'[k][j]^2 * D = H[k][j]^2 * N with the parts of the new W.          *)
Pos(x) == IF x > 0 THEN x ELSE 0
Negp(x) == IF x < 0 THEN -x ELSE 0
PartSq(We, Wp, H, k, j) ==
  Sum([q \in 1..Len(H) |-> H[q][j] * Sum([i \in 1..Len(We) |-> Wp[i][q] * We[i][j] * Wp[i][k]])])
Map2(W, F(_)) == [i \in 1..Len(W) |-> [k \in 1..Len(W[1]) |-> F(W[i][k])]]
WsN(V, We, W, H, k, j) ==
  Sum([i \in 1..Len(V) |-> We[i][j] * V[i][j] * Pos(W[i][k])]) + PartSq(We, Map2(W, Negp), H, k, j)
WsD(V, We, W, H, k, j) ==
  Sum([i \in 1..Len(V) |-> We[i][j] * V[i][j] * Negp(W[i][k])]) + PartSq(We, Map2(W, Pos), H, k, j)

(* ---- holding H --------------------------------------------------------- *)
(* Is H held in iteration i (counted from 0)?                               *)
Held(hold, delay, i) == hold /\ ~(delay > 0 /\ i > delay)

(* Weighted loss.                                                           *)
Sq(x) == x * x
Loss(V, We, W, H) ==
  Sum([i \in 1..Len(V) |-> Sum([j \in 1..Len(V[1]) |-> We[i][j] * Sq(V[i][j] - Prod(W, H, i, j))])])
=============================================================================
