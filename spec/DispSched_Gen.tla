---------------------------- MODULE DispSched_Gen ----------------------------
(* Prints every completion order, for replay through the deterministic pool. *)
EXTENDS DispSched, TLC, Json
One == {{}}
Emit == (Len(order) = K * N /\ table[1] < 0) => PrintT(<<"BEH", ToJson(order)>>)
=============================================================================
