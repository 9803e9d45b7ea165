---------------------------- MODULE Persist_Trace ----------------------------
EXTENDS Persist, TraceBase
VARIABLES c, l, err, fs, vs
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err, fs, vs>>
V0 == [k \in {"SA", "BatchSA", "Bootstrap", "Displacement", "BSDISP", "ConstrainedModel", "Simulator"} |-> 0]
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ fs = <<>> /\ vs = V0
         /\ ver = <<>> /\ files = <<>> /\ n = 0 /\ hist = <<>> /\ seen = <<>>
NextFs(e) == CASE e.ev = "save" -> AfterSave(fs, e.cls, e.name, e.dir, vs[e.cls])
               [] e.ev = "damage" -> PutFile(fs, e.path, Broken)
               [] OTHER -> fs
NextVs(e) == IF e.ev = "change" THEN [vs EXCEPT ![e.cls] = @ + 1] ELSE vs
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
(* the documented default: models as text, results as one pickle             *)
DefaultForm(e) == CASE e.cls \in {"SA", "ConstrainedModel"} -> e.pickles = 0 /\ e.texts >= 4
                    [] e.cls = "Simulator" -> e.pickles = 1 /\ e.texts >= 4
                    [] OTHER -> e.pickles = 1 /\ e.texts = 0
(* per: files written for one model; every live model, under its position   *)
BatchNumbered(e) ==
  /\ \A i \in 1..Len(e.files) : e.files[i].holds = <<e.files[i].number>>
  /\ \A j \in 1..Len(e.live) : Cardinality({i \in 1..Len(e.files) : e.files[i].number = e.live[j]}) = e.per
  /\ Len(e.files) = e.per * Len(e.live)
Where(e) == IF e.dir = "ok" THEN "place" ELSE "nothing"
Verdict(e) ==
  CASE e.ev = "save" /\ e.dir # "ok" /\ e.wrote -> "refused-save-writes"
    [] e.ev = "save" /\ e.ret # Where(e) -> "save-return"
    [] e.ev = "save" /\ e.dir = "ok" /\ ~e.there -> "pickle-file-missing"
    [] e.ev = "text" /\ e.dir # "ok" /\ e.wrote -> "refused-save-writes"
    [] e.ev = "text" /\ e.ret # Where(e) -> "save-return"
    [] e.ev = "text" /\ \E i \in 1..Len(e.files) : ~e.files[i].same -> "text-file-content"
    [] e.ev = "text" /\ e.dir = "ok" /\ Len(e.files) < e.least -> "text-file-missing"
    [] e.ev = "load" /\ Loaded(fs, e.cls, e.path) = 0 - 1 /\ e.ret # "nothing" -> "load-of-unreadable-file"
    [] e.ev = "load" /\ Loaded(fs, e.cls, e.path) >= 0 /\ e.ret = "nothing" -> "saved-object-not-loaded"
    [] e.ev = "load" /\ Loaded(fs, e.cls, e.path) >= 0 /\ ~Has(e.vers, Loaded(fs, e.cls, e.path)) -> "restored-object-differs"
    [] e.ev = "load" /\ e.wrote -> "load-writes"
    [] e.ev = "live" /\ ~e.same -> "save-changes-object"
    [] e.ev = "resume" /\ ~e.same -> "restored-object-behaves-differently"
    [] e.ev = "cuts" /\ e.notnone > 0 -> "load-of-truncated-file"
    [] e.ev = "cuts" /\ e.raised > 0 -> "load-of-truncated-file-raises"
    [] e.ev = "numbers" /\ ~BatchNumbered(e) -> "batch-file-number"
    [] e.ev = "default" /\ ~DefaultForm(e) -> "default-form"
    [] e.ev \in {"default", "numbers", "save", "text", "load", "change", "damage", "live", "resume", "cuts"} -> ""
    [] OTHER -> "unexpected-exception"
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN l' = l + 1 /\ err' = "" /\ fs' = NextFs(ev[l]) /\ vs' = NextVs(ev[l])
              ELSE l' = l /\ err' = v /\ UNCHANGED <<fs, vs>>
         /\ UNCHANGED <<vars, c>>
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
