SPECIFICATION CoverSpec
CONSTANTS
  Rs = {"r1", "r2"}
  Cs = {1, 2}
  Kinds = {"rr", "fnf", "rs", "rc"}
  Bads = {"op", "md", "dec"}
  D = 14
INVARIANTS Waits Once Silent NobodyWaits
CHECK_DEADLOCK FALSE
VIEW View
PROPERTY Returns
