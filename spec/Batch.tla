-------------------------------- MODULE Batch --------------------------------
(* A batch of N independent model trainings and the collection of their     *)
(* results.  The content of model i is the value i itself (its own seed and *)
(* starting matrices determine it, nothing else does); its loss is loss[i]. *)
(* Workers finish in any order; a worker may fail.                          *)
EXTENDS Integers, Sequences, FiniteSets

NaNQ == -2147483647

(* The selected model: the first with the lowest loss among those that have one. *)
BestOf(loss) ==
  LET fin == {i \in 1..Len(loss) : loss[i] # NaNQ}
      low == {i \in fin : \A j \in fin : loss[i] <= loss[j]}
  IN IF low = {} THEN 0 ELSE CHOOSE i \in low : \A j \in low : i <= j

(* Scanning in number order with a strict comparison, as a collector does.  *)
RECURSIVE Scan(_, _, _)
Scan(loss, i, best) ==
  IF i > Len(loss) THEN best
  ELSE Scan(loss, i + 1,
            IF loss[i] # NaNQ /\ (best = 0 \/ loss[i] < loss[best]) THEN i ELSE best)

(* A time limit (minutes, 0: none) ends a sequential run after the first    *)
(* model that took longer; that run is reported as unsuccessful.            *)
Slow(secs, limit) == {i \in 1..Len(secs) : limit > 0 /\ secs[i] > 60 * limit}
Trained(secs, limit) == IF Slow(secs, limit) = {} THEN Len(secs)
                        ELSE CHOOSE i \in Slow(secs, limit) : \A j \in Slow(secs, limit) : i <= j

-----------------------------------------------------------------------------
CONSTANTS MaxN, LVals
VARIABLES n, loss, fails, arrived, results, outcome
vars == <<n, loss, fails, arrived, results, outcome>>

Init == /\ n \in 1..MaxN
        /\ loss \in [1..n -> LVals \cup {NaNQ}]
        /\ fails \in SUBSET (1..n)
        /\ arrived = <<>> /\ results = [i \in 1..n |-> 0] /\ outcome = [done |-> FALSE, ok |-> FALSE, best |-> 0]
Done(i) == \E k \in 1..Len(arrived) : arrived[k] = i
Finish(i) == /\ ~outcome.done /\ ~Done(i)
             /\ arrived' = Append(arrived, i)
             /\ results' = IF i \in fails THEN results ELSE [results EXCEPT ![i] = i]
             /\ UNCHANGED <<n, loss, fails, outcome>>
Collect == /\ ~outcome.done /\ Len(arrived) = n
           /\ outcome' = IF fails # {} THEN [done |-> TRUE, ok |-> FALSE, best |-> 0]
                         ELSE [done |-> TRUE, ok |-> TRUE, best |-> Scan(loss, 1, 0)]
           /\ UNCHANGED <<n, loss, fails, arrived, results>>
Next == (\E i \in 1..n : Finish(i)) \/ Collect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* every model once under its number, whatever the order                    *)
Complete == outcome.ok => results = [i \in 1..n |-> i]
BestIsLowest == outcome.ok => outcome.best = BestOf(loss)
NaNNotSelected == (outcome.ok /\ outcome.best # 0) => loss[outcome.best] # NaNQ
FaultReported == outcome.done => (outcome.ok <=> fails = {})
Finishes == <>(outcome.done)
=============================================================================
