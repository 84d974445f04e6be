SPECIFICATION Spec
CONSTANTS
  MaxPuts = 3
  D = 5
INVARIANTS LiveAreFound Emit
CHECK_DEADLOCK FALSE
