------------------------------ MODULE NMF_Trace ------------------------------
(* Recorded iterations of the real update procedures.                       *)
(*   LSStep  integer V, We, W, H; results H1, W1 in units 2^-14 (W1e: W from *)
(*           the integer H when H is held), and H1c, W1c in units 2^-8.     *)
(*   WSStep  integer V, We, H; W1 in units 2^-10.                           *)
(*   WSHStep integer V = W0 H with integer W0, so W' = W0; H1 in units 2^-7.*)
(*   It      one iteration of a training: i, loss (int units of tol/...),   *)
(*           qtol, negatives, same-H flag ...                               *)
EXTENDS NMF, TraceBase
VARIABLES c, l, err, st
tvars == <<c, l, err, st>>
cfg == Cases[c].cfg
ev  == Cases[c].ev

U14 == 16384
Near(a, b, slack) == Abs(a - b) <= slack

LSVerdict(e) ==
  LET m == Len(e.V)  n == Len(e.V[1])  p == Len(e.H)
      HExact == \A k \in 1..p, j \in 1..n :
          LET d == HDen(e.We, e.W, e.H, k, j) IN
          Near(e.H1[k][j] * d, e.H[k][j] * HNum(e.V, e.We, e.W, k, j) * U14, 2 * d)
      HSame == \A k \in 1..p, j \in 1..n : e.H1[k][j] = e.H[k][j] * U14
      WExact == \A i \in 1..m, k \in 1..p :
          LET d == WDen(e.We, e.W, e.H, i, k) IN
          Near(e.W1[i][k] * d, e.W[i][k] * WNum(e.V, e.We, e.H, i, k) * U14, 2 * d)
      (* from the recorded new H, in units 2^-8                             *)
      WFrom == \A i \in 1..m, k \in 1..p :
          LET num == WNum(e.V, e.We, e.H1c, i, k)
              den == WDen(e.We, e.W, e.H1c, i, k) \div 256
              a == e.W1c[i][k] * den
              b == e.W[i][k] * num * 256
          IN Near(a, b, ((Abs(a) + Abs(b)) \div 100) + 2 * den + ((e.W[i][k] * num) \div 2) + 512)
  IN CASE e.hold /\ ~HSame -> "held-H-changed"
       [] e.hold /\ ~WExact -> "W-update-formula"
       [] ~e.hold /\ ~HExact -> "H-update-formula"
       [] ~e.hold /\ ~WFrom -> "W-update-uses-new-H"
       [] OTHER -> ""

WSVerdict(e) ==
  LET m == Len(e.V)  n == Len(e.V[1])  p == Len(e.H)
      Normal == \A i \in 1..m, k \in 1..p :
          LET lhs == Sum([q \in 1..p |-> e.W1[i][q] * A(e.We, e.H, i, q, k)])
              wt  == Sum([q \in 1..p |-> A(e.We, e.H, i, q, k)])
          IN Near(lhs, WNum(e.V, e.We, e.H, i, k) * 1024, 2 * wt + 2)
      HSame == \A k \in 1..p, j \in 1..n : e.H1[k][j] = e.H[k][j] * 1024
  IN CASE ~Normal -> "W-not-weighted-least-squares"
       [] e.hold /\ ~HSame -> "held-H-changed"
       [] OTHER -> ""

WSHVerdict(e) ==
  LET m == Len(e.V)  n == Len(e.V[1])  p == Len(e.H)
      WOk == \A i \in 1..m, k \in 1..p : Near(e.W1[i][k], e.W0[i][k] * 1024, 4)
      HOk == \A k \in 1..p, j \in 1..n :
          LET N == WsN(e.V, e.We, e.W0, e.H, k, j)
              D == WsD(e.V, e.We, e.W0, e.H, k, j)
              h == e.H1[k][j]
          IN D > 0 => Near(h * h * D, Sq(128 * e.H[k][j]) * N, D * (3 * h + 3) + (Sq(128 * e.H[k][j]) * N) \div 500)
  IN CASE ~WOk -> "W-not-weighted-least-squares"
       [] e.hold /\ ~(\A k \in 1..p, j \in 1..n : e.H1[k][j] = 128 * e.H[k][j]) -> "held-H-changed"
       [] ~e.hold /\ ~HOk -> "H-update-formula"
       [] OTHER -> ""

(* st: [i, q] - iterations seen and the last loss (NaN: none yet).          *)
ItVerdict(e) ==
  CASE e.i # st.i -> "iteration-order"
    [] cfg.ls /\ e.negW -> "W-negative"
    [] e.negH -> "H-negative"
    [] cfg.ls /\ ~e.zeros -> "zero-became-nonzero"
    [] ~e.finite -> "not-finite"
    [] Held(cfg.hold, cfg.delay, e.i) /\ ~e.sameH -> "held-H-changed"
    [] ~Held(cfg.hold, cfg.delay, e.i) /\ e.sameH /\ cfg.movesH -> "H-not-updated"
    [] e.sameW /\ cfg.moves -> "W-not-updated"
    [] (cfg.ls \/ Held(cfg.hold, cfg.delay, e.i)) /\ st.q # NaN /\ e.q > st.q + e.qtol -> "loss-increased"
    [] ~e.again -> "training-depends-on-history"
    [] OTHER -> ""

Verdict(e) == CASE e.ev = "LSStep" -> LSVerdict(e)
                [] e.ev = "WSStep" -> WSVerdict(e)
                [] e.ev = "WSHStep" -> WSHVerdict(e)
                [] e.ev = "It" -> ItVerdict(e)
                [] OTHER -> "unexpected-exception"

TInit == c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ st = [i |-> 0, q |-> NaN]
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN /\ l' = l + 1 /\ err' = ""
                             /\ st' = IF ev[l].ev = "It" THEN [i |-> ev[l].i + 1, q |-> ev[l].q] ELSE st
              ELSE st' = st /\ l' = l /\ err' = v
         /\ UNCHANGED c
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
