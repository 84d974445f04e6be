SPECIFICATION Spec
CONSTANTS
  D = 7
  Seqs = {5, 16383}
  Free = FALSE
  Starts = {"set"}
INVARIANTS NeverTwice Emit
CHECK_DEADLOCK FALSE
