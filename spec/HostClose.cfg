SPECIFICATION Spec
CONSTANTS
  Rs = {"r1", "r2"}
  Cs = {1, 2}
  Kinds = {"rr", "fnf", "rs", "rc"}
  Bads = {"op", "md", "dec"}
  D = 4
INVARIANTS Waits Once Silent NobodyWaits Emit
PROPERTY Returns
CHECK_DEADLOCK FALSE
