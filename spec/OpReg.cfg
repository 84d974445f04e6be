SPECIFICATION Spec
CONSTANTS
  Kinds = {"rr", "fnf", "rs", "rc"}
  NSs = {"a", "ab"}
  Names = {"c", "bc"}
  D = 2
  Pairs = {}
  Same = FALSE
INVARIANTS Listed Emit
CHECK_DEADLOCK FALSE
