------------------------------ MODULE Perturb -------------------------------
(* Uncertainty perturbation of a base model.  Task i gets its own seed when  *)
(* it is handed out; a worker selects cells and draws a multiplier for each  *)
(* selected cell from that seed alone, trains from the base solution and     *)
(* returns; workers finish in any order.  A trained model is represented by  *)
(* what it was trained from.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Models, Cells, Seeds, Mults, U0
VARIABLES seeds, done, models, mults, base, phase
vars == <<seeds, done, models, mults, base, phase>>
(* the cells a seed selects and their multipliers (any function will do)     *)
Selected(s, c) == (s + c) % 2 = 0
Draw(s, c) == IF Selected(s, c) THEN 2 + ((s * c) % Mults) ELSE 1
MultOf(s) == [c \in Cells |-> Draw(s, c)]
Uncertainty(s) == [c \in Cells |-> U0[c] * Draw(s, c)]
Train(init, u) == [init |-> init, u |-> u]
None == [init |-> "none", u |-> <<>>]
Init == /\ seeds = <<>> /\ done = {} /\ phase = "start" /\ base = "base"
        /\ models = [i \in 1..Models |-> None] /\ mults = [i \in 1..Models |-> <<>>]
Dispatch == /\ phase = "start" /\ Len(seeds) < Models
            /\ \E s \in Seeds : seeds' = Append(seeds, s)
            /\ phase' = IF Len(seeds') = Models THEN "run" ELSE "start"
            /\ UNCHANGED <<done, models, mults, base>>
Finish(i) == /\ phase = "run" /\ i \notin done
             /\ done' = done \cup {i}
             /\ models' = [models EXCEPT ![i] = Train(base, Uncertainty(seeds[i]))]
             /\ mults' = [mults EXCEPT ![i] = MultOf(seeds[i])]
             /\ phase' = IF done' = 1..Models THEN "done" ELSE "run"
             /\ UNCHANGED <<seeds, base>>
Next == Dispatch \/ \E i \in 1..Models : Finish(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Aligned == \A i \in done : /\ models[i].u = [c \in Cells |-> U0[c] * mults[i][c]]
                           /\ models[i].init = base
OnlySelected == \A i \in done : \A c \in Cells : ~Selected(seeds[i], c) => models[i].u[c] = U0[c] /\ mults[i][c] = 1
(* the outcome is a function of the seeds, whatever the order                *)
OrderFree == phase = "done" => \A i \in 1..Models : models[i] = Train("base", Uncertainty(seeds[i]))
BaseKept == base = "base"
Completes == <>(phase = "done")
=============================================================================
