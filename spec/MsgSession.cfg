SPECIFICATION Spec
CONSTANTS
  Items = {}
  Max = 2
  CutBack = {0}
  Readers = {"skip", "any"}
  Caps = {0}
  Mode = "read"
INVARIANTS Accounted Fits Emit
CHECK_DEADLOCK FALSE
