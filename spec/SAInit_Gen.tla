----------------------------- MODULE SAInit_Gen -----------------------------
EXTENDS SAInit, TLC, Json
Emit == (Len(log) = MaxOps /\ \E i \in 1..MaxOps: log[i].op = "train")
          => PrintT(<<"BEH", ToJson([dataOk |-> s.dataOk, log |-> log])>>)
=============================================================================
