SPECIFICATION Spec
CONSTANTS
  D = 4
  Counts = {1, 15, 17}
  Fails = {0, 5, 40}
INVARIANT Emit
CHECK_DEADLOCK FALSE
