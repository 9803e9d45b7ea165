------------------------------ MODULE DispSched ------------------------------
(* Workers search the cells (factor, feature) of one direction and deliver  *)
(* in any order; the tables are compiled from the delivered results.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K, N, SwapSets
VARIABLES swaps, order, filed, table
vars == <<swaps, order, filed, table>>
Tasks == (1..K) \X (1..N)
TaskAt(t) == <<((t - 1) \div N) + 1, ((t - 1) % N) + 1>>
Init == swaps \in SwapSets /\ order = <<>> /\ filed = {} /\ table = [f \in 1..K |-> 0 - 1]
Deliver(t) == /\ t \notin {order[a] : a \in 1..Len(order)}
              /\ order' = Append(order, t)
              /\ filed' = filed \cup {[f |-> TaskAt(t)[1], j |-> TaskAt(t)[2], swap |-> TaskAt(t) \in swaps]}
              /\ UNCHANGED <<swaps, table>>
Compile == /\ Len(order) = K * N /\ table[1] < 0
           /\ table' = [f \in 1..K |-> Cardinality({r \in filed : r.f = f /\ r.swap})]
           /\ UNCHANGED <<swaps, order, filed>>
Next == (\E t \in 1..(K * N) : Deliver(t)) \/ Compile
Spec == Init /\ [][Next]_vars
Independent == table[1] >= 0 => \A f \in 1..K : table[f] = Cardinality({t \in swaps : t[1] = f})
=============================================================================
