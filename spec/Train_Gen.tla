------------------------------ MODULE Train_Gen ------------------------------
(* Prints every complete behaviour of the design model, for replay.         *)
EXTENDS Train, TLC, Json
Emit == st.done => PrintT(<<"BEH", ToJson([q |-> st.hist, n |-> par.n, delta |-> par.delta,
                                           maxIter |-> par.maxIter])>>)
=============================================================================
