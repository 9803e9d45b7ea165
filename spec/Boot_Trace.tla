----------------------------- MODULE Boot_Trace -----------------------------
(* Recorded resamples.  cfg: N, bs, kind ("block", "overlap", "row"), V, U, *)
(* W (integer cells).  Sample: one dataset; Cover: the draws of a case;     *)
(* Runs: a whole bootstrap, with a digest of what each run holds.           *)
EXTENDS Boot, TraceBase
VARIABLES c, l, err, seen, base
cfg == Cases[c].cfg
ev  == Cases[c].ev
tvars == <<vars, c, l, err, seen, base>>
TInit == /\ c \in 1..Len(Cases) /\ l = 1 /\ err = "" /\ seen = {} /\ base = <<>>
         /\ N = 0 /\ bs = 0 /\ ov = FALSE /\ idx = <<>>

Eff == EffBlock(cfg.N, cfg.bs)
IsOv == cfg.kind = "overlap"
Idx(index) ==
  CASE Len(index) # cfg.N -> "dataset-size"
    [] \E i \in 1..cfg.N : index[i] \notin 0..(cfg.N - 1) -> "row-out-of-range"
    [] cfg.kind # "row" -> Parse(index, cfg.N, Eff, IsOv, 1)
    [] OTHER -> ""
RowsOf(mat, index) == [i \in 1..Len(index) |-> mat[index[i] + 1]]
SampleVerdict(e) ==
  CASE Idx(e.index) # "" -> Idx(e.index)
    [] e.v # RowsOf(cfg.V, e.index) -> "data-rows"
    [] e.u # RowsOf(cfg.U, e.index) -> "uncertainty-rows"
    [] e.w # RowsOf(cfg.W, e.index) -> "contribution-rows"
    [] OTHER -> ""
Drawn(e) == IF cfg.kind = "row" THEN {e.index[i] : i \in 1..Len(e.index)}
            ELSE DrawnStarts(e.index, cfg.N, Eff, IsOv, 1)
All == IF cfg.kind = "row" THEN 0..(cfg.N - 1) ELSE Starts(cfg.N, Eff, IsOv)
(* Chance repeats: only with 10^8 possible datasets (or four equal runs) is *)
(* a repetition evidence that the runs are not drawn independently.         *)
NBlocks == (cfg.N + Eff - 1) \div Eff
ManyResamples == IF cfg.kind = "row" THEN cfg.N > 9 ELSE NBlocks > 8 /\ Cardinality(All) > 8
SomeResamples == IF cfg.kind = "row" THEN cfg.N > 4 ELSE NBlocks > 3 /\ Cardinality(All) > 3
RunsVerdict(e) ==
  CASE e.keys # {} /\ e.keys # 1..cfg.n -> "every-run-once"
    [] \E r \in 1..cfg.n : Idx(e.runs[r].index) # "" ->
         Idx(e.runs[CHOOSE r \in 1..cfg.n : Idx(e.runs[r].index) # ""].index)
    [] \E r \in 1..cfg.n : e.runs[r].v # RowsOf(cfg.V, e.runs[r].index) -> "data-rows"
    [] \E r \in 1..cfg.n : e.runs[r].u # RowsOf(cfg.U, e.runs[r].index) -> "uncertainty-rows"
    [] \E r \in 1..cfg.n : e.runs[r].num # r -> "run-number"
    [] \E r \in 1..cfg.n : e.runs[r].dig # e.runs[r].alone -> "run-is-a-model-of-its-data"
    [] e.reuse /\ \E r \in 1..cfg.n : ~e.runs[r].baseSeed -> "base-seed-reused"
    [] base # <<>> /\ e.runs # base -> "same-for-every-schedule"
    [] ManyResamples /\ \E r, q \in 1..cfg.n : r # q /\ e.runs[r].index = e.runs[q].index -> "runs-repeat-a-resample"
    [] cfg.n > 3 /\ SomeResamples /\ \A r, q \in 1..cfg.n : e.runs[r].index = e.runs[q].index -> "runs-repeat-a-resample"
    [] OTHER -> ""
Norm(e) == [e EXCEPT !.keys = {e.keys[i] : i \in 1..Len(e.keys)}]
KeysOk(e) == Len(e.keys) = cfg.n
Verdict(e) == CASE e.ev = "Sample" -> SampleVerdict(e)
                [] e.ev = "Cover"  -> IF seen # All THEN "sample-never-drawn" ELSE ""
                [] e.ev = "Runs"   -> IF KeysOk(e) THEN RunsVerdict(Norm(e)) ELSE "every-run-once"
                [] e.ev = "Seeds"  -> IF e.a = e.b THEN "seed-ignored" ELSE ""
                [] OTHER -> "unexpected-exception"
TNext == /\ err = "" /\ l <= Len(ev)
         /\ LET v == Verdict(ev[l]) IN
              IF v = "" THEN /\ l' = l + 1 /\ err' = ""
                             /\ seen' = IF ev[l].ev = "Sample" THEN seen \cup Drawn(ev[l]) ELSE seen
                             /\ base' = IF ev[l].ev = "Runs" THEN ev[l].runs ELSE base
              ELSE l' = l /\ err' = v /\ UNCHANGED <<seen, base>>
         /\ UNCHANGED <<vars, c>>
TSpec == TInit /\ [][TNext]_tvars
Verdicts == Report(Cases[c], l, err)
=============================================================================
