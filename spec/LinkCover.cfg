SPECIFICATION CoverSpec
CONSTANTS
  Clients = {1}
  Forms = {"connect", "client"}
  Tables = {"own", "swap"}
  Kinds = {"rr", "fnf", "rs", "rc"}
  Ops = {"a", "b"}
  Dirs = {"up", "down"}
  Strangers = {"silent", "garbage", "request", "half", "gone"}
  D = 24
INVARIANTS Joined Pending
CHECK_DEADLOCK FALSE
VIEW View
PROPERTIES Alone Ends
