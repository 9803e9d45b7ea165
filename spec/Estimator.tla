------------------------------ MODULE Estimator ------------------------------
(* The Monte Carlo factor search.  Every sample has a factor count and a     *)
(* selection of cells; its training error is the mean squared residual over  *)
(* the selected cells and its test error the mean over all the others.       *)
(* Workers finish in any order; the table averages the samples of a count.   *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

(* residual (a sequence of squared residuals), sel (the selected cells: the *)
(* training set): the sum and number over the cells in / not in the selection *)
Cells(sel, in) == {i \in 1..Len(sel) : sel[i] = in}
PartSum(res, sel, in) == SumOver(res, Cells(sel, in))
PartLen(sel, in) == Cardinality(Cells(sel, in))

Void == -2147483647                       (* no average: the count was not sampled *)

(* the rows of the table: an average of the samples of each count            *)
Rows(err, count, lo, hi) ==
  [i \in 1..(hi - lo + 1) |->
     LET S == {j \in 1..Len(err) : count[j] = lo + i - 1}
     IN IF S = {} THEN Void ELSE SumOver(err, S) \div Cardinality(S)]

(* the first row with the highest estimate among those which have one        *)
BestRow(est) ==
  LET has == {i \in 1..Len(est) : est[i] # Void}
      top == {i \in has : \A j \in has : est[i] >= est[j]}
  IN IF has = {} THEN 0 ELSE CHOOSE i \in top : \A j \in top : i <= j
Estimated(est, lo) == IF BestRow(est) = 0 THEN -1 ELSE lo + BestRow(est) - 1

-----------------------------------------------------------------------------
CONSTANTS NCells, NSamples, Lo, Hi, Vals
VARIABLES res, sel, count, arrived, lists, table
vars == <<res, sel, count, arrived, lists, table>>

(* res, sel, count: drawn for each sample                                    *)
Init == /\ res \in [1..NSamples -> [1..NCells -> Vals]]
        /\ sel \in [1..NSamples -> [1..NCells -> {0, 1}]]
        /\ count \in [1..NSamples -> Lo..Hi]
        /\ arrived = <<>> /\ lists = [k \in Lo..Hi |-> <<>>] /\ table = <<>>
Score(j, in) == IF PartLen(sel[j], in) = 0 THEN 0 ELSE PartSum(res[j], sel[j], in)
Arrive(j) == /\ \A k \in 1..Len(arrived) : arrived[k] # j
             /\ arrived' = Append(arrived, j)
             /\ lists' = [lists EXCEPT ![count[j]] = Append(@, Score(j, 0))]
             /\ UNCHANGED <<res, sel, count, table>>
Tabulate == /\ Len(arrived) = NSamples /\ table = <<>>
            /\ table' = [i \in 1..(Hi - Lo + 1) |->
                 IF lists[Lo + i - 1] = <<>> THEN Void
                 ELSE SumSeq(lists[Lo + i - 1]) \div Len(lists[Lo + i - 1])]
            /\ UNCHANGED <<res, sel, count, arrived, lists>>
Next == (\E j \in 1..NSamples : Arrive(j)) \/ Tabulate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the two selections split the dataset                                      *)
Partition == \A j \in 1..NSamples :
  PartSum(res[j], sel[j], 0) + PartSum(res[j], sel[j], 1) = SumOver(res[j], 1..NCells)
(* the table does not depend on the order of arrival                         *)
OrderFree == table # <<>> => table = Rows([j \in 1..NSamples |-> Score(j, 0)], count, Lo, Hi)
Neg(x) == IF x = Void THEN Void ELSE -x
(* an unsampled count neither is the estimate nor prevents one               *)
EstimateSampled == table # <<>> =>
  LET e == Estimated([i \in 1..Len(table) |-> Neg(table[i])], Lo)
  IN \E j \in 1..NSamples : count[j] = e
Finishes == <>(table # <<>>)
=============================================================================
