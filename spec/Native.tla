------------------------------- MODULE Native -------------------------------
(* The optimised (Rust) training as the library calls it.                    *)
(*                                                                          *)
(* Interface: arrays arrive as memory plus shape; the data and its          *)
(* uncertainties are read column by column, W and H row by row, and W and H *)
(* are handed back column by column.  The caller's arrays may be stored     *)
(* either way, so they have to be laid out before every call.               *)
(*                                                                          *)
(* Loop: one loss per iteration; training has converged as soon as the last *)
(* n losses fell by less than delta (compare Train: the Python loop looks   *)
(* one iteration later), and reports the index of its last iteration.       *)
EXTENDS Integers, Sequences

(* memory of matrix A stored row by row (C) or column by column (F)         *)
Rows(A) == Len(A)
Cols(A) == Len(A[1])
Mem(A, o) == [k \in 1..(Rows(A) * Cols(A)) |->
                IF o = "C" THEN A[((k - 1) \div Cols(A)) + 1][((k - 1) % Cols(A)) + 1]
                           ELSE A[((k - 1) % Rows(A)) + 1][((k - 1) \div Rows(A)) + 1]]
Read(mem, r, c, o) == [i \in 1..r |-> [j \in 1..c |-> IF o = "C" THEN mem[(i - 1) * c + j] ELSE mem[(j - 1) * r + i]]]
(* an array: its values and how they are stored                             *)
Arr(A, o) == [val |-> A, o |-> o]
Lay(a, o) == [a EXCEPT !.o = o]
Reads(a, o) == Read(Mem(a.val, a.o), Rows(a.val), Cols(a.val), o)

(* loop                                                                     *)
NInit == [hist |-> <<>>, win |-> <<>>, converged |-> FALSE, done |-> FALSE]
NIterate(st, q, n, delta, maxIter) ==
  LET hist == Append(st.hist, q)
      win == Append(st.win, q)
      full == Len(win) >= n
      conv == full /\ win[1] - win[Len(win)] < delta
  IN [hist |-> hist, win |-> IF full THEN Tail(win) ELSE win, converged |-> conv, done |-> conv \/ Len(hist) >= maxIter]

CONSTANTS Prepare, MaxDim, Orders, QVals, Deltas, MaxIters, WinSizes, MaxCalls
VARIABLES data, unc, fac, calls, seen, st, par
vars == <<data, unc, fac, calls, seen, st, par>>
(* distinct entries, so that any displaced entry is seen                    *)
Fill(r, c, k) == [i \in 1..r |-> [j \in 1..c |-> k * (10 * i + j)]]
Init == /\ \E r, c, f \in 1..MaxDim, ov, ou, ow, oh \in Orders :
             /\ data = Arr(Fill(r, c, 1), ov) /\ unc = Arr(Fill(r, c, 7), ou)
             /\ fac = [w |-> Arr(Fill(r, f, 3), ow), h |-> Arr(Fill(f, c, 5), oh)]
        /\ calls = 0 /\ seen = <<>> /\ st = NInit
        /\ par \in [n: WinSizes, delta: Deltas, maxIter: MaxIters]
P(a, o) == IF Prepare THEN Lay(a, o) ELSE a
Call == /\ calls < MaxCalls /\ (calls = 0 \/ st.done)
        /\ seen' = [v |-> Reads(P(data, "F"), "F"), u |-> Reads(P(unc, "F"), "F"),
                    w |-> Reads(P(fac.w, "C"), "C"), h |-> Reads(P(fac.h, "C"), "C"),
                    v0 |-> data.val, u0 |-> unc.val, w0 |-> fac.w.val, h0 |-> fac.h.val]
        /\ calls' = calls + 1 /\ st' = NInit /\ UNCHANGED <<data, unc, fac, par>>
(* results come back stored column by column                                *)
Step == /\ calls > 0 /\ ~st.done
        /\ \E q \in QVals : st' = NIterate(st, q, par.n, par.delta, par.maxIter)
        /\ fac' = IF st'.done THEN [w |-> Lay(fac.w, "F"), h |-> Lay(fac.h, "F")] ELSE fac
        /\ UNCHANGED <<data, unc, calls, seen, par>>
(* resampled data (bootstrap) is stored row by row                          *)
Resample == /\ calls = 0 /\ data.o = "F" /\ data' = Lay(data, "C") /\ unc' = Lay(unc, "C")
            /\ UNCHANGED <<fac, calls, seen, st, par>>
Next == Call \/ Step \/ Resample
Spec == Init /\ [][Next]_vars
(* the training works on the matrices it was given                          *)
SeesTheData == seen # <<>> => seen.v = seen.v0 /\ seen.u = seen.u0 /\ seen.w = seen.w0 /\ seen.h = seen.h0
N == Len(st.hist)
First(k) == k >= par.n /\ k >= 1 /\ st.hist[IF k - par.n + 1 > k THEN k ELSE IF k - par.n + 1 < 1 THEN 1 ELSE k - par.n + 1] - st.hist[k] < par.delta
ConvergedSound == st.converged => First(N)
ConvergedFirst == \A k \in 1..(N - 1) : ~First(k)
Bounded == N <= par.maxIter
=============================================================================
