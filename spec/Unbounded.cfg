SPECIFICATION Spec
CONSTANTS
  MaxPut = 6
  D = 7
INVARIANTS Conserved ClosedEmpty Emit
CHECK_DEADLOCK FALSE
