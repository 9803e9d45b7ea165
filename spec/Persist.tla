------------------------------- MODULE Persist -------------------------------
(* Saving and loading work.  One live object per class; `ver` counts its     *)
(* changes.  A file is absent, holds what an object was when it was saved,   *)
(* or is broken (a crash while writing, truncation, an unrelated file).      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Classes, Names, Dirs, Hows, MaxOps
VARIABLES ver, files, n, hist, seen
vars == <<ver, files, n, hist, seen>>

(* where a pickled object goes: some classes choose (part of) the name       *)
PathOf(cls, nm) == CASE cls = "Simulator" -> "esat_simulator"
                     [] cls = "ConstrainedModel" -> "constrained_model-" \o nm
                     [] OTHER -> nm
Broken == [kind |-> "bad", cls |-> "", ver |-> 0]
Saved(cls, v) == [kind |-> "obj", cls |-> cls, ver |-> v]
PutFile(fs, p, x) == [q \in DOMAIN fs \cup {p} |-> IF q = p THEN x ELSE fs[q]]
(* the state of the directory after an operation                            *)
AfterSave(fs, cls, nm, dir, v) == IF dir = "ok" THEN PutFile(fs, PathOf(cls, nm), Saved(cls, v)) ELSE fs
(* what a load of path p as class cls returns: a version, or -1 for nothing *)
Loaded(fs, cls, p) == IF p \in DOMAIN fs /\ fs[p].kind = "obj" /\ fs[p].cls = cls THEN fs[p].ver ELSE 0 - 1

Paths == {PathOf(k, m) : k \in Classes, m \in Names}
Init == ver = [k \in Classes |-> 0] /\ files = <<>> /\ n = 0 /\ hist = <<>> /\ seen = <<>>
Op(o) == n < MaxOps /\ n' = n + 1 /\ hist' = Append(hist, o)
Save(k, m, d) == /\ Op([op |-> "save", cls |-> k, name |-> m, dir |-> d])
                 /\ files' = AfterSave(files, k, m, d, ver[k])
                 /\ UNCHANGED <<ver, seen>>
Text(k, m, d) == Op([op |-> "text", cls |-> k, name |-> m, dir |-> d]) /\ UNCHANGED <<ver, files, seen>>
Change(k) == Op([op |-> "change", cls |-> k]) /\ ver' = [ver EXCEPT ![k] = @ + 1] /\ UNCHANGED <<files, seen>>
Damage(p, h) == /\ p \in DOMAIN files /\ Op([op |-> "damage", path |-> p, how |-> h])
                /\ files' = PutFile(files, p, Broken)
                /\ UNCHANGED <<ver, seen>>
Load(k, p) == /\ Op([op |-> "load", cls |-> k, path |-> p])
              /\ seen' = <<k, p, Loaded(files, k, p)>>
              /\ UNCHANGED <<ver, files>>
Next == \/ \E k \in Classes, m \in Names, d \in Dirs : Save(k, m, d) \/ Text(k, m, d)
        \/ \E k \in Classes : Change(k)
        \/ \E p \in Paths, h \in Hows : Damage(p, h)
        \/ \E k \in Classes, p \in Paths : Load(k, p)
Spec == Init /\ [][Next]_vars

(* a load never invents: what it returns was saved by that class, and is not
   newer than the live object                                               *)
NoInvention == seen # <<>> => (seen[3] >= 0 => seen[3] <= ver[seen[1]])
(* a failed save and a load change no file; only saves and damage do        *)
Stable == [][(\E p \in Paths : p \in DOMAIN files /\ files'[p] # files[p])
             => hist'[Len(hist')].op \in {"save", "damage"}]_vars
(* an object saved last into its path is what loading returns               *)
RoundTrip == \A k \in Classes, m \in Names :
   (hist # <<>> /\ hist[Len(hist)].op = "save" /\ hist[Len(hist)].cls = k /\ hist[Len(hist)].name = m
       /\ hist[Len(hist)].dir = "ok") => Loaded(files, k, PathOf(k, m)) = ver[k]
View == <<ver, files, n, seen, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>
=============================================================================
