----------------------------- MODULE Persist_Gen -----------------------------
(* Histories for replay.  Loads are aimed at files that exist (as the class  *)
(* that wrote them or as another one), with a few at missing ones.           *)
EXTENDS Persist, TLC, Json
Emit == n = MaxOps => PrintT(<<"BEH", ToJson(hist)>>)
Live == DOMAIN files
GenNext == \/ \E k \in Classes, m \in Names : Save(k, m, "ok") \/ Text(k, m, "ok")
           \/ \E k \in Classes, d \in Dirs : Save(k, "a", d) \/ Text(k, "a", d)
           \/ \E k \in Classes : Change(k)
           \/ \E p \in Live, h \in Hows : Damage(p, h)
           \/ \E p \in Live : files[p].kind = "obj" /\ Load(files[p].cls, p)
           \/ \E p \in Live, k \in Classes : Load(k, p)
           \/ \E k \in Classes : Load(k, "nowhere") \/ Load(k, "relative")
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
