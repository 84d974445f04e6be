SPECIFICATION Spec
CONSTANTS
  Kinds = {"rr", "fnf", "rs", "rc", "payload"}
  MDs = {0}
  Datas = {0}
  Maxs = {0}
INVARIANTS SplitIsValid Emit
CHECK_DEADLOCK FALSE
