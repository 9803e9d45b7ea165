-------------------------------- MODULE Boot --------------------------------
(* Block bootstrap: rows are drawn block by block until there are as many   *)
(* as in the original.  Rows are numbered from 0.                           *)
EXTENDS Integers, Sequences, FiniteSets

(* A block length above half the data is reduced to half.                   *)
EffBlock(N, bs) == IF 2 * bs > N THEN IF N \div 2 >= 1 THEN N \div 2 ELSE 1 ELSE bs

Starts(N, b, ov) == IF ov THEN 0..(N - b) ELSE {i * b : i \in 0..((N - 1) \div b)}
BlockLen(N, b, ov, s) == IF ov \/ s + b <= N THEN b ELSE N - s
Take(N, have, len) == IF have + len > N THEN N - have ELSE len
Rows(s, k) == [i \in 1..k |-> s + i - 1]

(* Reads an index list back as a sequence of draws: "" if it is one.        *)
RECURSIVE Parse(_, _, _, _, _)
Parse(idx, N, b, ov, p) ==
  IF p > Len(idx) THEN ""
  ELSE LET s == idx[p] IN
       IF s \notin Starts(N, b, ov) THEN "block-start"
       ELSE LET k == Take(N, p - 1, BlockLen(N, b, ov, s)) IN
            IF p + k - 1 > Len(idx) THEN "block-incomplete"
            ELSE IF \E i \in 0..(k - 1) : idx[p + i] # s + i THEN "block-not-consecutive"
            ELSE Parse(idx, N, b, ov, p + k)
RECURSIVE DrawnStarts(_, _, _, _, _)
DrawnStarts(idx, N, b, ov, p) ==
  IF p > Len(idx) THEN {}
  ELSE {idx[p]} \cup DrawnStarts(idx, N, b, ov, p + Take(N, p - 1, BlockLen(N, b, ov, idx[p])))

-----------------------------------------------------------------------------
CONSTANTS MaxN
VARIABLES N, bs, ov, idx
vars == <<N, bs, ov, idx>>
Init == /\ N \in 2..MaxN /\ bs \in 1..(MaxN + 1) /\ ov \in BOOLEAN /\ idx = <<>>
B == EffBlock(N, bs)
Draw == /\ Len(idx) < N
        /\ \E s \in Starts(N, B, ov) :
             idx' = idx \o Rows(s, Take(N, Len(idx), BlockLen(N, B, ov, s)))
        /\ UNCHANGED <<N, bs, ov>>
Spec == Init /\ [][Draw]_vars /\ WF_vars(Draw)

SameSize == Len(idx) <= N
OnlyOriginalRows == \A i \in 1..Len(idx) : idx[i] \in 0..(N - 1)
Wellformed == Len(idx) = N => Parse(idx, N, B, ov, 1) = ""
EveryRowInSomeBlock ==
  \A r \in 0..(N - 1) : \E s \in Starts(N, B, ov) : r \in s..(s + BlockLen(N, B, ov, s) - 1)
BlockBelowHalf == 2 * B <= N
Fills == <>(Len(idx) = N)
=============================================================================
