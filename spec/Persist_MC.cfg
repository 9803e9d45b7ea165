SPECIFICATION Spec
CONSTANTS
  Classes = {"SA", "ConstrainedModel", "Simulator"}
  Names = {"a", "b"}
  Dirs = {"ok", "missing"}
  Hows = {"truncate"}
  MaxOps = 5
INVARIANT NoInvention RoundTrip
PROPERTY Stable
VIEW View
CHECK_DEADLOCK FALSE
