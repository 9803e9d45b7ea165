------------------------------ MODULE Simulator ------------------------------
(* The synthetic data simulator.  Profiles (prof) and contributions (con)    *)
(* are one token per factor: two states with the same token of a factor have *)
(* the same values of that factor, bit for bit.  given is the matrix the     *)
(* caller owns.  gen is what the data handed out (values, uncertainties,     *)
(* frames and the synthetic model) were generated from.                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS F, MaxOps, Curves
VARIABLES prof, con, gen, given, fresh, hist
vars == <<prof, con, gen, given, fresh, hist>>
None == [prof |-> <<>>, con |-> <<>>]
Init == /\ prof = [i \in 1..F |-> i] /\ con = [i \in 1..F |-> F + i] /\ gen = None
        /\ given = <<>> /\ fresh = 2 * F /\ hist = <<>>
Fresh(k) == [i \in 1..F |-> fresh + i + k]
Update(i, curve) ==
  /\ con' = [con EXCEPT ![i] = fresh + 1] /\ fresh' = fresh + 1
  /\ gen' = IF gen = None THEN None ELSE [prof |-> prof, con |-> con']
  /\ hist' = Append(hist, [op |-> "update", factor |-> i, kind |-> curve]) /\ UNCHANGED <<prof, given>>
(* all the factors, the first k factors or none of them are given            *)
Profiles(k) ==
  /\ prof' = Fresh(0) /\ fresh' = fresh + F
  /\ given' = [i \in 1..k |-> prof'[i]]
  /\ hist' = Append(hist, [op |-> "profiles", factor |-> k, kind |-> IF k = F THEN "given" ELSE IF k = 0 THEN "random" ELSE "partial"])
  /\ UNCHANGED <<con, gen>>
Data == /\ gen' = [prof |-> prof, con |-> con]
        /\ hist' = Append(hist, [op |-> "data", factor |-> 0, kind |-> ""]) /\ UNCHANGED <<prof, con, given, fresh>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E i \in 1..F, u \in Curves : Update(i, u)
           \/ \E k \in 0..F : Profiles(k)
           \/ Data
Spec == Init /\ [][Next]_vars

TypeOK == /\ Len(prof) = F /\ Len(con) = F /\ fresh \in Nat
(* an updated contribution is never missing in the data handed out           *)
Recalculated == gen # None => gen.con = con
(* no two factors share values                                               *)
Distinct == \A i, j \in 1..F : prof[i] # con[j] /\ (i # j => prof[i] # prof[j] /\ con[i] # con[j])
(* only the named factor changes; generated data belong to one state         *)
OnlyNamed == [][ \A i \in 1..F : con'[i] # con[i] =>
                   /\ hist'[Len(hist')].op = "update" /\ hist'[Len(hist')].factor = i
                   /\ \A j \in (1..F) \ {i} : con'[j] = con[j]
                   /\ prof' = prof ]_vars
ProfilesByRequest == [][ prof' # prof => hist'[Len(hist')].op = "profiles" /\ con' = con /\ gen' = gen ]_vars
FromOneState == [][ gen' # gen => gen' = [prof |-> prof, con |-> con'] ]_vars
GivenKept == [][ given' # given => \A i \in 1..Len(given') : prof'[i] = given'[i] ]_vars
=============================================================================
