------------------------------- MODULE SAInit -------------------------------
(* The life of one model object: build, initialise (any number of times,    *)
(* with good or bad matrices), train.  Matrices are abstracted to what      *)
(* decides acceptance; the exact cell rules are operators used by the       *)
(* trace specification and checked here on small matrices.                  *)
EXTENDS Integers, Sequences, FiniteSets

FLOOR == 9999          \* the smallest uncertainty / the tiny positive cell, 1e-12
UZERO == 7777          \* a zero, or negative, uncertainty handed to the constructor
UNEG  == 7778
NANC  == -2147483647   \* a missing value

(* Uncertainties are powers of two, given by their exponent.                *)
KeptU(u)   == IF u \in {UZERO, UNEG} THEN FLOOR ELSE u
Weight(u)  == IF KeptU(u) = FLOOR THEN FLOOR ELSE IF u = NANC THEN NANC ELSE -2 * u
(* A supplied profile cell (an integer) as it must be used.                 *)
KeptH(h)   == IF h = NANC THEN NANC ELSE IF h <= 0 THEN FLOOR ELSE h

Methods == [x \in {"ls-nmf", "LS-NMF", "Ls-Nmf"} |-> "ls-nmf"]
MethodOf(s) == IF s \in {"ws-nmf", "WS-NMF", "Ws-Nmf"} THEN "ws-nmf" ELSE "ls-nmf"
SeedOf(s)   == IF s = "none" THEN 42 ELSE s

(* kinds of W and H handed to initialize                                    *)
WKinds == {"none", "ok", "nan", "shape"}
HKinds == {"none", "ok", "nan", "part"}
WOk(k) == k \in {"none", "ok"}
HOk(k) == k \in {"none", "ok", "part"}

NewModel(dataOk) == [dataOk |-> dataOk, inited |-> FALSE, wOk |-> FALSE, hOk |-> FALSE,
                     results |-> 0, w |-> 0, h |-> 0, clock |-> 0, ret |-> "none"]

DoInit(s, wk, hk) ==
  [s EXCEPT !.inited = TRUE, !.wOk = WOk(wk), !.hOk = HOk(hk),
            !.clock = @ + 1, !.w = s.clock + 1, !.h = s.clock + 1]

(* What training sees: an uninitialised model initialises itself first.     *)
Ready(s)   == IF s.inited THEN s ELSE DoInit(s, "none", "none")
Accepts(s) == LET r == Ready(s) IN r.dataOk /\ r.wOk /\ r.hOk
DoTrain(s) ==
  LET r == Ready(s) IN
  IF Accepts(s)
  THEN [r EXCEPT !.clock = @ + 1, !.w = r.clock + 1, !.h = r.clock + 1,
                 !.results = r.clock + 1, !.ret = "none"]
  ELSE [r EXCEPT !.ret = "-1"]

-----------------------------------------------------------------------------
CONSTANT MaxOps
VARIABLES s, log
vars == <<s, log>>
Init == \E d \in BOOLEAN: s = NewModel(d) /\ log = <<>>
Next == /\ Len(log) < MaxOps
        /\ \/ \E wk \in WKinds, hk \in HKinds:
                s' = DoInit(s, wk, hk) /\ log' = Append(log, [op |-> "init", w |-> wk, h |-> hk])
           \/ s' = DoTrain(s) /\ log' = Append(log, [op |-> "train", w |-> "", h |-> ""])
Spec == Init /\ [][Next]_vars

(* A model with results was valid when it obtained them; a refused training *)
(* changes nothing that was there.                                          *)
RefusalHarmless ==
  [][(Len(log') > Len(log) /\ log'[Len(log')].op = "train" /\ s'.ret = "-1" /\ ~Accepts(s))
       => /\ s'.results = s.results
          /\ s.inited => s'.w = s.w /\ s'.h = s.h]_vars
ResultsOnlyFromValid == [][s'.results # s.results => Accepts(s) /\ s.dataOk]_vars
InvalidNeverTrains == ~s.dataOk => s.results = 0
(* an initialisation with good matrices always repairs a model              *)
GoodInitRepairs == (s.dataOk /\ Len(log) > 0 /\ log[Len(log)].op = "init"
                     /\ WOk(log[Len(log)].w) /\ HOk(log[Len(log)].h)) => Accepts(s)
CellRules == /\ \A u \in {-3, 0, 4, UZERO, UNEG} : KeptU(u) \notin {UZERO, UNEG}
             /\ \A h \in -2..3 : KeptH(h) > 0 /\ (h > 0 => KeptH(h) = h)
=============================================================================
