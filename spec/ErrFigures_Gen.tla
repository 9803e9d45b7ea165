--------------------------- MODULE ErrFigures_Gen ---------------------------
(* Histories for the replay: every method is run, figures follow, some       *)
(* methods are run again.                                                    *)
EXTENDS ErrFigures, TLC, Json
BsFigs == {"bs.profile", "bs.contribution", "bs.table"}
DispFigs == {"disp.profile", "disp.contribution", "bsdisp.profile", "bsdisp.contribution"}
ConFigs == {"con.profile", "con.contributions", "con.both"}
WholeFigs == {"bs.mapping", "bs.q", "disp.summary", "bsdisp.summary", "con.q", "con.constraints", "con.expressions", "con.fingerprints"}
GOp(o, k, i, d, w) == hist' = Append(hist, [op |-> o, kind |-> k, item |-> i, dq |-> d, with |-> w]) /\ UNCHANGED <<ran, shown>>
Sets == {<<"bs">>, <<"disp">>, <<"bsdisp">>, <<"bs", "disp">>, <<"bs", "bsdisp">>, <<"disp", "bsdisp">>, <<"bs", "disp", "bsdisp">>}
GenNext == /\ Len(hist) < MaxOps
           /\ \/ \E k \in {"bs", "con"}, w \in 1..4 : GOp("run", k, 0, 0, <<>>)
              \/ \E k \in BsFigs, i \in 0..(F + 1), w \in 1..2 : GOp("figure", k, i, 0, <<>>)
              \/ \E k \in DispFigs, i \in 0..(F + 1), d \in Asked : i \in 0..1 /\ GOp("figure", k, i, d, <<>>)
              \/ \E k \in DispFigs, d \in Asked : GOp("figure", k, F, d, <<>>)
              \/ \E k \in ConFigs, i \in 0..(F + 1), w \in 1..2 : GOp("figure", k, i, 0, <<>>)
              \/ \E i \in 0..(F + 1), j \in 0..(F + 1) : GOp("figure", "con.gspace", i, j, <<>>)
              \/ \E i \in 0..4, w \in 1..2 : GOp("figure", "con.feature", i, 0, <<>>)
              \/ \E k \in WholeFigs, w \in 1..2 : GOp("figure", k, 0, 0, <<>>)
              \/ \E w \in Sets, i \in 0..(F + 1) : GOp("summary", "", i, 0, w)
GenInit == Init
GenSpec == GenInit /\ [][GenNext]_vars
Emit == Len(hist) = MaxOps => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
