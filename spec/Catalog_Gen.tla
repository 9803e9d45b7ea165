----------------------------- MODULE Catalog_Gen -----------------------------
(* Prints histories of a catalogue for replay (the history part of Next).    *)
EXTENDS Catalog, TLC, Json
Op(o, i, kss, ls, ex) == /\ hist' = Append(hist, [op |-> o, index |-> i, kinds |-> kss, losses |-> ls, exclude |-> ex])
                         /\ n' = n + 1 /\ UNCHANGED <<kind, cls, model, joined, given>>
GenNext == /\ n < MaxOps
           /\ \/ \E i \in Indices : \E p \in Kinds : Op("model", i, <<<<p>>>>, <<1>>, FALSE)
              \/ \E i \in Indices : \E p, q \in Kinds : Op("model", i, <<<<p, q>>>>, <<1>>, FALSE)
              \/ \E p, q, r \in Kinds : \E l1, l2 \in Losses : \E ex \in BOOLEAN :
                   Op("batch", 0, <<<<p, q>>, <<r>>>>, <<l1, l2>>, ex)
GenSpec == Init /\ [][GenNext]_vars
Emit == n = MaxOps => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
