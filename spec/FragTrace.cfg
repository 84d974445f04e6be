SPECIFICATION TSpec
CONSTANTS
  Kinds = {"rr", "fnf", "rs", "rc", "payload"}
  MDs = {0}
  Datas = {0}
  Maxs = {0}
INVARIANT Check
CHECK_DEADLOCK FALSE
