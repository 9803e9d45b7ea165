------------------------------ MODULE Analysis ------------------------------
(* Analysis of a batch of models and of the data they were trained on.       *)
(* ver[m] counts the trainings of model m (0: the model failed, it has no    *)
(* result); sel is the model an analysis object was made for.  A figure of   *)
(* the selected model shows the version it was drawn from; estimated values  *)
(* may be kept from an earlier figure (kept) as long as they are current.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS M, F, N, MaxOps, Kinds, Estimates
VARIABLES ver, sel, kept, shown, hist
vars == <<ver, sel, kept, shown, hist>>
NoFig == [kind |-> "", model |-> 0, item |-> 0, ver |-> 0, drawn |-> FALSE]
Items(kind) == IF kind = "factor" THEN 1..F ELSE IF kind = "feature" THEN 0..(N - 1) ELSE {0}
Init == /\ ver \in [1..M -> 0..1] /\ sel \in {m \in 1..M : ver[m] > 0} /\ kept = 0 /\ shown = NoFig /\ hist = <<>>
Train(m) == /\ ver[m] > 0 /\ ver' = [ver EXCEPT ![m] = @ + 1]
            /\ kept' = IF m = sel THEN 0 ELSE kept
            /\ hist' = Append(hist, [op |-> "train", m |-> m, kind |-> "", item |-> 0, show |-> FALSE]) /\ UNCHANGED <<sel, shown>>
Select(m) == /\ ver[m] > 0 /\ sel' = m /\ kept' = 0 /\ shown' = shown /\ ver' = ver
             /\ hist' = Append(hist, [op |-> "select", m |-> m, kind |-> "", item |-> 0, show |-> FALSE])
Figure(kind, item, show) ==
  /\ LET ok == item \in Items(kind)
         v == IF kind \in Estimates /\ kept > 0 THEN kept ELSE ver[sel]
     IN /\ shown' = IF ok THEN [kind |-> kind, model |-> sel, item |-> item, ver |-> v, drawn |-> TRUE]
                    ELSE [NoFig EXCEPT !.kind = kind, !.item = item]
        /\ kept' = IF ok /\ kind \in Estimates THEN v ELSE kept
  /\ hist' = Append(hist, [op |-> "figure", m |-> sel, kind |-> kind, item |-> item, show |-> show])
  /\ UNCHANGED <<ver, sel>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E m \in 1..M : Train(m) \/ Select(m)
           \/ \E kind \in Kinds, item \in -1..(F + N), show \in BOOLEAN : Figure(kind, item, show)
Spec == Init /\ [][Next]_vars

LastOp == hist[Len(hist)]
(* a figure is of the model selected and of its present state                *)
Current == (hist # <<>> /\ LastOp.op = "figure" /\ shown.drawn) => shown.ver = ver[sel] /\ shown.model = sel /\ sel = LastOp.m
(* nothing is drawn for an item that does not exist                          *)
Refused == (hist # <<>> /\ LastOp.op = "figure") => (shown.drawn <=> LastOp.item \in Items(LastOp.kind))
(* figures change neither models nor selection                               *)
ReadOnly == [][ hist' # hist /\ hist'[Len(hist')].op = "figure" => ver' = ver /\ sel' = sel ]_vars
=============================================================================
