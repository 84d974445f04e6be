SPECIFICATION Spec
CONSTANTS
  Items = {}
  D = 2
  Faults = {0}
INVARIANTS Ordered Emit
CHECK_DEADLOCK FALSE
