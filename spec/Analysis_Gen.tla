---------------------------- MODULE Analysis_Gen ----------------------------
(* Histories for the replay: kinds are the figures of the code; the items of *)
(* a kind are factors counted from one, features counted from zero, or none. *)
EXTENDS Analysis, TLC, Json
FactorFigs == {"profile", "gspace", "surface", "all3d"}
FeatureFigs == {"residuals", "observed", "timeseries", "contributions", "fsurface"}
WholeFigs == {"factors", "fingerprints", "composition", "metrics", "statistics"}
Op(o, m, k, i, s) == hist' = Append(hist, [op |-> o, m |-> m, kind |-> k, item |-> i, show |-> s]) /\ UNCHANGED <<ver, sel, kept, shown>>
GenNext == /\ Len(hist) < MaxOps
           /\ \/ \E m \in 1..M, w \in 1..6 : Op("train", m, "", 0, FALSE) \/ Op("select", m, "", 0, FALSE)
              \/ \E k \in FactorFigs, i \in 0..(F + 1), s \in BOOLEAN : Op("figure", 0, k, i, s)
              \/ \E k \in FeatureFigs, i \in -1..N, s \in BOOLEAN : Op("figure", 0, k, i, s)
              \/ \E k \in WholeFigs, s \in BOOLEAN, w \in 1..4 : Op("figure", 0, k, 0, s)
              \/ \E k \in {"loss", "distribution"}, s \in BOOLEAN, w \in 1..2 : Op("batch", 0, k, 0, s)
              \/ \E i \in 0..(N - 1), s \in BOOLEAN, w \in 1..2 : Op("batch", 0, "temporal", i, s)
GenInit == ver = [m \in 1..M |-> 1] /\ sel = 1 /\ kept = 0 /\ shown = NoFig /\ hist = <<>>
GenSpec == GenInit /\ [][GenNext]_vars
Emit == Len(hist) = MaxOps => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
