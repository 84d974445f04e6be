SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3}
  D = 6
  MaxLive = 3
INVARIANTS Exact SizeExact Distinct Emit
CHECK_DEADLOCK FALSE
