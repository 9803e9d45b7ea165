------------------------------ MODULE DataH_Gen ------------------------------
(* Prints histories of category changes and reads for replay.               *)
EXTENDS DataH, TLC, Json
VARIABLE hist
GNames == <<"a", "b", "c">>
GNA == 0 - 1
GInit == rows = <<>> /\ cat = <<"strong", "strong", "strong">> /\ mats = <<<<>>, <<>>, <<>>>> /\ ops = 0 /\ hist = <<>>
GSet == \E f \in {"a", "b", "c", "other", "A"}, k \in Cats \cup {"Weak", "none"} :
          /\ cat' = SetCat(Names, cat, f, k)
          /\ hist' = Append(hist, [op |-> "set", f |-> f, c |-> k])
GRead == /\ hist' = Append(hist, [op |-> "get", f |-> "", c |-> ""]) /\ cat' = cat
GNext == ops < MaxOps /\ ops' = ops + 1 /\ (GSet \/ GRead) /\ UNCHANGED <<rows, mats>>
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == ops = MaxOps => PrintT(<<"BEH", ToJson(hist)>>)
==============================================================================
