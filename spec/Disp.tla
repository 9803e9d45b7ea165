-------------------------------- MODULE Disp --------------------------------
(* The displacement search.  With the contributions and every other profile *)
(* value held, the loss is a parabola in one profile value; as a function   *)
(* of the multiple x/S of the base value its rise over the base loss is     *)
(*     A (x/S - 1)^2 + B (x/S - 1)        (B # 0: base model not converged) *)
(* Rise below is that times S^2, in exact integers.                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS S, As, Bs, Levels, Thr, MaxSteps, MaxDouble
VARIABLES A, B, dir, phase, i, lo, hi, x, steps, res
vars == <<A, B, dir, phase, i, lo, hi, x, steps, res>>

Rise(y) == A * (y - S) * (y - S) + B * S * (y - S)
L(k) == Levels[k] * S * S
Low(k) == L(k) - Thr * S * S
InBand(y, k) == Rise(y) <= L(k) /\ Rise(y) >= Low(k)

Init == /\ A \in As /\ B \in Bs /\ dir \in {"up", "down"}
        /\ i = 1 /\ steps = 0 /\ res = <<>>
        /\ IF dir = "up" THEN phase = "double" /\ x = 2 * S /\ lo = S /\ hi = 2 * S
                         ELSE phase = "bisect" /\ lo = 0 /\ hi = S /\ x = S \div 2
Double == /\ phase = "double"
          /\ IF Rise(x) < L(1) /\ steps < MaxDouble
             THEN x' = 2 * x /\ hi' = 2 * x /\ steps' = steps + 1 /\ phase' = phase
             ELSE x' = (lo + hi) \div 2 /\ hi' = hi /\ steps' = 0 /\ phase' = "bisect"
          /\ UNCHANGED <<A, B, dir, i, lo, res>>
(* near = the end of the interval next to the base value                    *)
Stop == InBand(x, i) \/ steps >= MaxSteps \/ hi - lo <= 1
Record == /\ phase = "bisect" /\ Stop
          /\ res' = Append(res, [val |-> x, steps |-> steps])
          /\ IF i = Len(Levels) THEN phase' = "done" /\ UNCHANGED <<i, lo, hi, x, steps>>
             ELSE /\ i' = i + 1 /\ phase' = phase /\ steps' = 0
                  /\ LET nlo == IF dir = "up" THEN S ELSE 0
                         nhi == IF dir = "up" THEN hi ELSE S
                     IN lo' = nlo /\ hi' = nhi /\ x' = (nlo + nhi) \div 2
          /\ UNCHANGED <<A, B, dir>>
Bisect == /\ phase = "bisect" /\ ~Stop
          /\ LET tooFar == Rise(x) > L(i)
                 nlo == IF dir = "up" THEN IF tooFar THEN lo ELSE x ELSE IF tooFar THEN x ELSE lo
                 nhi == IF dir = "up" THEN IF tooFar THEN x ELSE hi ELSE IF tooFar THEN hi ELSE x
             IN lo' = nlo /\ hi' = nhi /\ x' = (nlo + nhi) \div 2
          /\ steps' = steps + 1
          /\ UNCHANGED <<A, B, dir, phase, i, res>>
Next == Double \/ Bisect \/ Record
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Found(k) == InBand(res[k].val, k)
Bracket == \A k \in 1..Len(res) : IF dir = "up" THEN res[k].val >= S ELSE res[k].val <= S
Nested == \A k, m \in 1..Len(res) : (k < m /\ Found(k) /\ Found(m)) =>
            IF dir = "up" THEN res[k].val >= res[m].val ELSE res[k].val <= res[m].val
(* no displacement beyond a found limit keeps the loss below the band        *)
Largest == \A k \in 1..Len(res) : Found(k) =>
             \A y \in (IF dir = "up" THEN res[k].val..(4 * S) ELSE 0..res[k].val) : Rise(y) >= Low(k)
(* a level that even zero does not reach gives a limit of (nearly) zero      *)
ToZero == dir = "down" => \A k \in 1..Len(res) : (Rise(0) < Low(k) /\ res[k].steps < MaxSteps) => res[k].val <= 1
Ends == <>(phase = "done")
=============================================================================
