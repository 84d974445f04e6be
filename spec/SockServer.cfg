SPECIFICATION Spec
CONSTANTS
  Cs = {1, 2}
  D = 5
INVARIANTS Told NoneLeft Emit
CHECK_DEADLOCK FALSE
