----------------------------- MODULE ErrFigures -----------------------------
(* Figures of the error methods and of constrained models.                   *)
(* ran[k] counts the runs of method k; an error summary combines the methods *)
(* that were given to it; asked is the dQ a figure was requested for.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS F, MaxOps
VARIABLES ran, shown, hist
vars == <<ran, shown, hist>>
Methods == {"bs", "disp", "bsdisp", "con"}
DQs(k) == CASE k = "disp" -> {320, 160, 80, 40} [] k = "bsdisp" -> {40, 20, 10, 5} [] OTHER -> {}
Default(k) == CASE k = "disp" -> 40 [] k = "bsdisp" -> 5 [] OTHER -> 0
Asked == {5, 10, 40, 160, 70}
(* the dQ of a figure is the one asked for if the method has it, otherwise   *)
(* the default of the method                                                 *)
Chosen(k, d) == IF d \in DQs(k) THEN d ELSE Default(k)
(* the only dQ that displacement and BS-DISP share                           *)
SummaryDQ == 40
NoFig == [drawn |-> FALSE, kinds |-> {}, item |-> 0, dq |-> 0, ver |-> 0]
Init == ran = [k \in Methods |-> 0] /\ shown = NoFig /\ hist = <<>>
Op(o, k, i, d, w) == [op |-> o, kind |-> k, item |-> i, dq |-> d, with |-> w]
Run(k) == /\ k = "bsdisp" => ran["bs"] > 0
          /\ ran' = [ran EXCEPT ![k] = @ + 1] /\ hist' = Append(hist, Op("run", k, 0, 0, {})) /\ UNCHANGED shown
Figure(k, i, d) ==
  /\ ran[k] > 0
  /\ shown' = IF i \in 1..F THEN [drawn |-> TRUE, kinds |-> {k}, item |-> i, dq |-> Chosen(k, d), ver |-> ran[k]] ELSE NoFig
  /\ hist' = Append(hist, Op("figure", k, i, d, {})) /\ UNCHANGED ran
Summary(w, i) ==
  /\ w # {} /\ \A k \in w : ran[k] > 0
  /\ shown' = IF i \in 1..F /\ w \cap {"bs", "disp"} # {} THEN [drawn |-> TRUE, kinds |-> w, item |-> i, dq |-> SummaryDQ, ver |-> 0] ELSE NoFig
  /\ hist' = Append(hist, Op("summary", "", i, 0, w)) /\ UNCHANGED ran
Next == /\ Len(hist) < MaxOps
        /\ \/ \E k \in Methods : Run(k)
           \/ \E k \in Methods, i \in 0..(F + 1), d \in Asked : Figure(k, i, d)
           \/ \E w \in SUBSET {"bs", "disp", "bsdisp"}, i \in 0..(F + 1) : Summary(w, i)
Spec == Init /\ [][Next]_vars
LastOp == hist[Len(hist)]
(* what is drawn exists: a factor of the model, a dQ of every method shown   *)
Exists == shown.drawn => /\ shown.item \in 1..F
                         /\ \A k \in shown.kinds : ran[k] > 0 /\ (DQs(k) # {} => shown.dq \in DQs(k))
(* a figure right after a run shows that run                                 *)
Present == (hist # <<>> /\ LastOp.op = "figure" /\ shown.drawn) => shown.ver = ran[LastOp.kind]
AsAsked == (hist # <<>> /\ LastOp.op = "figure" /\ shown.drawn /\ LastOp.dq \in DQs(LastOp.kind)) => shown.dq = LastOp.dq
ReadOnly == [][ hist' # hist /\ hist'[Len(hist')].op # "run" => ran' = ran ]_vars
=============================================================================
