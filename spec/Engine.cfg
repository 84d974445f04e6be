SPECIFICATION Spec
CONSTANTS
  Ins = {"i1"}
  Outs = {}
  InKinds = {"rr", "fnf", "rs", "rc"}
  OutKinds = {"rr"}
  Pubs = {"create", "error", "slice"}
  Feeds = {"none"}
  Ns = {1, 2}
  Gated = TRUE
  Acts = {"reqn", "cancel", "next", "complete", "last", "error", "hin", "unknown"}
  Bad = {"op", "md"}
  Downs = {}
  Patient = FALSE
  Calm = FALSE
  D = 4
INVARIANTS AnsweredOnce Answered Requested Demanded NobodyWaits Emit
CHECK_DEADLOCK FALSE
