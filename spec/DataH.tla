-------------------------------- MODULE DataH --------------------------------
(* Loading, categories, processed data, locations and merging.  A dataset   *)
(* has named columns; a sample has an identity, a location, and a value and *)
(* an uncertainty per column; NA marks a missing one.                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NA
Cats == {"strong", "weak", "bad"}
AllMissing(q) == \A j \in 1..Len(q) : q[j] = NA
(* Loading keeps the samples that have some data and some uncertainty.      *)
Loaded(rows) == SelectSeq(rows, LAMBDA r : ~AllMissing(r.v) /\ ~AllMissing(r.u))
(* The modelled columns: neither excluded nor bad, in the loaded order.     *)
RECURSIVE Pick(_, _, _, _)
Pick(j, names, out, cat) ==
  IF j > Len(names) THEN <<>>
  ELSE (IF names[j] \in out \/ cat[j] = "bad" THEN <<>> ELSE <<j>>) \o Pick(j + 1, names, out, cat)
Modelled(names, out, cat) == Pick(1, names, out, cat)
Complete(r, cols) == \A j \in 1..Len(cols) : r.v[cols[j]] # NA /\ r.u[cols[j]] # NA
Factor(c) == IF c = "weak" THEN 3 ELSE 1
Usable(rows, cols) == SelectSeq(rows, LAMBDA r : Complete(r, cols))
ProcV(rows, cols) == LET k == Usable(rows, cols) IN [i \in 1..Len(k) |-> [j \in 1..Len(cols) |-> k[i].v[cols[j]]]]
ProcU(rows, cols, cat) == LET k == Usable(rows, cols) IN [i \in 1..Len(k) |-> [j \in 1..Len(cols) |-> Factor(cat[cols[j]]) * k[i].u[cols[j]]]]
ProcId(rows, cols) == LET k == Usable(rows, cols) IN [i \in 1..Len(k) |-> k[i].id]
(* Setting a category: an unknown column or category changes nothing.       *)
Ok(names, f, c) == c \in Cats /\ \E j \in 1..Len(names) : names[j] = f
SetCat(names, cat, f, c) == IF Ok(names, f, c) THEN [j \in 1..Len(names) |-> IF names[j] = f THEN c ELSE cat[j]] ELSE cat
(* Locations in the order of their first sample.                            *)
RECURSIVE Locs(_, _)
Locs(rows, seen) == IF rows = <<>> THEN <<>>
  ELSE IF Head(rows).loc \in seen THEN Locs(Tail(rows), seen)
  ELSE <<Head(rows).loc>> \o Locs(Tail(rows), seen \cup {Head(rows).loc})
At(rows, p) == SelectSeq(rows, LAMBDA r : r.loc = p)
Split(rows) == LET ls == Locs(rows, {}) IN [x \in 1..Len(ls) |-> At(rows, ls[x])]
RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Concat(Tail(qs))
Merge(others, own) == Concat(others) \o own
Ids(rows) == [i \in 1..Len(rows) |-> rows[i].id]

(* ---- design model ---- *)
CONSTANTS Names, Out, Values, NRows, MaxOps
VARIABLES rows, cat, mats, ops
vars == <<rows, cat, mats, ops>>
NC == Len(Names)
Row == [v : [1..NC -> Values], u : [1..NC -> Values], loc : {1, 2}]
Init == /\ \E q \in [1..NRows -> Row] :
             rows = Loaded([i \in 1..NRows |-> [id |-> i, loc |-> q[i].loc, v |-> q[i].v, u |-> q[i].u]])
        /\ cat = [j \in 1..NC |-> "strong"] /\ mats = <<<<>>, <<>>, <<>>>> /\ ops = 0
Cols == Modelled(Names, Out, cat)
Set == /\ ops < MaxOps
       /\ \E f \in {Names[j] : j \in 1..NC} \cup {"other"}, c \in Cats \cup {"x"} : cat' = SetCat(Names, cat, f, c)
       /\ ops' = ops + 1 /\ UNCHANGED <<rows, mats>>
Read == /\ mats' = <<ProcId(rows, Cols), ProcV(rows, Cols), ProcU(rows, Cols, cat)>>
        /\ UNCHANGED <<rows, cat, ops>>
Next == Set \/ Read
Spec == Init /\ [][Next]_vars
NoMissing == \A i \in 1..Len(mats[2]) : \A j \in 1..Len(mats[2][i]) : mats[2][i][j] # NA /\ mats[3][i][j] # NA
Aligned == Len(mats[1]) = Len(mats[2]) /\ Len(mats[2]) = Len(mats[3])
             /\ \A i \in 1..Len(mats[1]) : Len(mats[2][i]) = Len(mats[3][i])
WeakOnce == \A i \in 1..Len(mats[1]) : LET r == CHOOSE r \in {rows[x] : x \in 1..Len(rows)} : r.id = mats[1][i] IN
              \A j \in 1..Len(mats[3][i]) : mats[3][i][j] \in {r.u[x] : x \in 1..NC} \cup {3 * r.u[x] : x \in 1..NC}
Conserved == /\ {Concat(Split(rows))[i].id : i \in 1..Len(rows)} = {rows[i].id : i \in 1..Len(rows)}
             /\ Len(Concat(Split(rows))) = Len(rows)
             /\ \A x \in 1..Len(Split(rows)) : Split(rows)[x] # <<>> /\ \A i \in 1..Len(Split(rows)[x]) : Split(rows)[x][i].loc = Split(rows)[x][1].loc
MergeConserves == LET s == Split(rows) IN
                    \A x \in 1..Len(s) : Len(Merge(SubSeq(s, 1, x - 1) \o SubSeq(s, x + 1, Len(s)), s[x])) = Len(rows)
=============================================================================
