SPECIFICATION Spec
CONSTANTS
  Clients = {1}
  Forms = {"connect", "client"}
  Tables = {"own", "swap"}
  Kinds = {"rr", "fnf", "rs", "rc"}
  Ops = {"a", "b"}
  Dirs = {"up", "down"}
  Strangers = {"silent", "garbage", "request", "half", "gone"}
  D = 24
INVARIANTS Joined Pending Emit
CHECK_DEADLOCK FALSE

PROPERTIES Alone Ends
