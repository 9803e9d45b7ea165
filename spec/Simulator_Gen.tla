---------------------------- MODULE Simulator_Gen ----------------------------
EXTENDS Simulator, TLC, Json
Op(o, i, k) == hist' = Append(hist, [op |-> o, factor |-> i, kind |-> k]) /\ UNCHANGED <<prof, con, gen, given, fresh>>
GenNext == /\ Len(hist) < MaxOps
           /\ \/ \E i \in 1..F, u \in Curves : Op("update", i, u)
              \/ \E k \in 0..F : Op("profiles", k, IF k = F THEN "given" ELSE IF k = 0 THEN "random" ELSE "partial")
              \/ \E k \in 1..4 : Op("data", 0, "")
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = MaxOps => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
