------------------------------- MODULE Train -------------------------------
(* The training loop of one model: a machine that consumes one loss value   *)
(* per iteration and decides when to stop.  Losses and the threshold are    *)
(* integer counts of a small unit.                                          *)
(*                                                                          *)
(* `hist` is every recorded loss, `win` the sliding window the loop keeps.  *)
EXTENDS Integers, Sequences

NaNQ == -2147483647                \* stands for a loss that is not a number

TrainInit == [hist |-> <<>>, win |-> <<>>, steps |-> 0, converged |-> FALSE,
              done |-> FALSE, bad |-> FALSE]

(* The last n recorded losses of a window with more than n entries.         *)
Slide(win, n) == IF Len(win) > n THEN Tail(win) ELSE win

Drop(win) == win[1] - win[Len(win)]

(* One iteration: record the loss, then decide.                             *)
Iterate(st, q, n, delta, maxIter) ==
  LET hist == Append(st.hist, q)
      full == Len(st.win) + 1 > n
      win  == Slide(Append(st.win, q), n)
      last == Len(hist) >= maxIter
  IN IF q = NaNQ
     THEN [st EXCEPT !.hist = hist, !.win = Append(st.win, q), !.done = TRUE, !.bad = TRUE]
     ELSE IF full /\ Drop(win) < delta
     THEN [st EXCEPT !.hist = hist, !.win = win, !.done = TRUE, !.converged = TRUE]
     ELSE [st EXCEPT !.hist = hist, !.win = win, !.steps = @ + 1, !.done = last]

-----------------------------------------------------------------------------
(* Design model: every sequence of losses.                                  *)
CONSTANTS QVals, Deltas, MaxIters, WinSizes
VARIABLES st, par

Init == /\ par \in [n: WinSizes, delta: Deltas, maxIter: MaxIters]
        /\ st = TrainInit
Next == /\ ~st.done
        /\ \E q \in QVals \cup {NaNQ}: st' = Iterate(st, q, par.n, par.delta, par.maxIter)
        /\ par' = par
Spec == Init /\ [][Next]_<<st, par>> /\ WF_<<st, par>>(Next)

N == Len(st.hist)
(* The window holds the last n losses of the history.                       *)
WindowIsSuffix ==
  ~st.bad => st.win = SubSeq(st.hist, IF N > par.n THEN N - par.n + 1 ELSE 1, N)
(* Convergence is reported only for a small drop over the last n losses.    *)
ConvergedSound ==
  st.converged => /\ N > par.n
                  /\ st.hist[N - par.n + 1] - st.hist[N] < par.delta
(* ... and at the first such iteration.                                     *)
ConvergedFirst ==
  \A k \in 1..N : (k > par.n /\ k < N /\ st.hist[k] # NaNQ)
      => ~(st.hist[k - par.n + 1] - st.hist[k] < par.delta)
Bounded == N <= par.maxIter /\ st.steps <= N
StepsRule == st.steps = (IF st.converged \/ st.bad THEN N - 1 ELSE N)
NaNStops == st.bad => st.done /\ ~st.converged /\ st.hist[N] = NaNQ
Terminates == <>(st.done)
=============================================================================
