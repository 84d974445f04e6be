SPECIFICATION Spec
CONSTANTS
  N = 3
  Alphabet = {0, 1, 255}
INVARIANT Emit
CHECK_DEADLOCK FALSE
