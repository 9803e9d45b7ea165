------------------------------ MODULE Registry ------------------------------
(* The constraints and expressions of a constrained model as edited by its  *)
(* user.  A request names a target and an index; the matrices have M samples*)
(* (W: M x K) and N features (H: K x N).  Indices count from 0.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS M, N, K, MaxEdits, ReqTypes, Exprs, Indices
VARIABLES cons, exprs, n, hist
vars == <<cons, exprs, n, hist>>

Types == {"pull down", "pull up", "pull to value", "set to zero", "set to base value", "define limits"}
Needs(t) == CASE t = "pull down" -> {"dQ"} [] t = "pull up" -> {"dQ"} [] t = "pull to value" -> {"target", "dQ"}
              [] t = "define limits" -> {"min", "max"} [] OTHER -> {}
Inside(tg, i, j, m, nn, k) == \/ tg = "feature" /\ i \in 0..(k - 1) /\ j \in 0..(nn - 1)
                              \/ tg = "sample" /\ i \in 0..(m - 1) /\ j \in 0..(k - 1)
Valid(r, m, nn, k) == r.type \in Types /\ Needs(r.type) \subseteq r.given /\ Inside(r.target, r.i, r.j, m, nn, k)
Elem(r) == <<r.target, r.i, r.j>>
(* the registry is a function from elements to the accepted request         *)
Accepts(reg, r, m, nn, k) == Valid(r, m, nn, k) /\ Elem(r) \notin DOMAIN reg
AddTo(reg, r) == [e \in DOMAIN reg \cup {Elem(r)} |-> IF e = Elem(r) THEN r ELSE reg[e]]
Without(reg, e) == [x \in DOMAIN reg \ {e} |-> reg[x]]
DropAt(s, i) == IF i >= 0 /\ i < Len(s) THEN SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s)) ELSE s

Requests == [type : ReqTypes, target : {"feature", "sample", "other"}, i : Indices, j : Indices, given : {{}, {"dQ", "target", "min", "max"}}]
Init == cons = <<>> /\ exprs = <<>> /\ n = 0 /\ hist = <<>>
Edit(op) == n < MaxEdits /\ n' = n + 1 /\ hist' = Append(hist, op)
Add(r) == /\ Edit([op |-> "add", req |-> r])
          /\ cons' = IF Accepts(cons, r, M, N, K) THEN AddTo(cons, r) ELSE cons
          /\ UNCHANGED exprs
Remove(e) == Edit([op |-> "remove", elem |-> e]) /\ cons' = Without(cons, e) /\ UNCHANGED exprs
AddExpr(x) == Edit([op |-> "addexpr", x |-> x]) /\ exprs' = Append(exprs, x) /\ UNCHANGED cons
RemoveExpr(i) == Edit([op |-> "removeexpr", i |-> i]) /\ exprs' = DropAt(exprs, i) /\ UNCHANGED cons
Elements == ({"feature"} \X (0..(K - 1)) \X (0..(N - 1))) \cup ({"sample"} \X (0..(M - 1)) \X (0..(K - 1)))
Next == \/ \E r \in Requests : Add(r)
        \/ \E e \in DOMAIN cons : Remove(e)
        \/ \E e \in Elements \ DOMAIN cons : e[2] = 0 /\ e[3] = 0 /\ Remove(e)
        \/ \E x \in Exprs : AddExpr(x)
        \/ \E i \in {0 - 1, 0, 1, 2} : RemoveExpr(i)
Spec == Init /\ [][Next]_vars

Sane == /\ DOMAIN cons \subseteq Elements
        /\ \A e \in DOMAIN cons : Elem(cons[e]) = e /\ cons[e].type \in Types
        /\ Len(exprs) <= n
FirstKept == [][\A e \in DOMAIN cons : e \in DOMAIN cons' => cons'[e] = cons[e]]_vars
View == <<cons, exprs, n>>
=============================================================================
