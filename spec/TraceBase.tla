----------------------------- MODULE TraceBase -----------------------------
(* Shared by every trace specification.  The file named by the environment  *)
(* variable CASES holds a JSON array of cases [id, cfg, ev]; ev is the      *)
(* sequence of events recorded from one execution of the real code.  A      *)
(* trace specification walks through the events of one case; `err` is the   *)
(* name of the clause the execution broke, or "".                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(* NaN of a logged real, and the saturation bound.                          *)
NaN == -2147483647
Sat == 1073741824

Report(case, l, err) ==
  IF err # "" THEN PrintT(<<"VERDICT", case.id, l, err>>)
  ELSE IF l > Len(case.ev) THEN PrintT(<<"DONE", case.id>>)
  ELSE TRUE
=============================================================================
