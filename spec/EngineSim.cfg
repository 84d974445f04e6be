SPECIFICATION Spec
CONSTANTS
  Ins = {"i1"}
  Outs = {}
  InKinds = {"rr", "fnf", "rs", "rc"}
  OutKinds = {"rr"}
  Pubs = {"create", "error", "slice"}
  Feeds = {"none"}
  Ns = {1, 2}
  Gated = TRUE
  Acts = {"reqn", "cancel", "next", "complete", "last", "error", "hin", "unknown"}
  Bad = {"op", "md"}
  Downs = {}
  Patient = FALSE
  Calm = TRUE
  D = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
