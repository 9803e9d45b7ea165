---------------------------- MODULE Registry_Gen ----------------------------
(* Prints edit histories for replay: all short ones, and random longer ones *)
(* (TLC -simulate), over requests valid and invalid.                        *)
EXTENDS Registry, TLC, Json
Emit == n = MaxEdits => PrintT(<<"BEH", ToJson(hist)>>)
R(t, g, i, j, v) == [type |-> t, target |-> g, i |-> i, j |-> j, given |-> v]
all == {"dQ", "target", "min", "max"}
GenRequests ==
  {R("set to zero", "feature", i, j, {}) : i \in {0, 1}, j \in {0, 1}}
  \cup {R("pull to value", "sample", i, j, all) : i \in {0, 2}, j \in {0, 1}}
  \cup {R("pull down", "sample", 2, 1, all), R("set to base value", "feature", 1, 1, {}),
        R("define limits", "feature", 0, 0, all), R("pull up", "sample", 0, 0, all),
        R("pull up", "feature", 0, 1, {}), R("pull to value", "feature", 1, 0, {"dQ"}), R("define limits", "sample", 1, 1, {"min"}),
        R("bogus", "feature", 0, 0, all), R("set to zero", "other", 0, 0, {}), R("set to zero", "sample", 0, 2, {}),
        R("set to zero", "sample", 3, 0, {}), R("set to zero", "feature", 2, 0, {}), R("set to zero", "feature", 0, 2, {}),
        R("set to zero", "feature", 0 - 1, 0, {}), R("set to zero", "sample", 0, 0 - 1, {})}
=============================================================================
