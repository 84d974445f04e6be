SPECIFICATION Spec
CONSTANTS
  Types = {1, 2, 3, 4}
  Dirs = {1, 2}
  Idxs = {1}
  NSs = {1}
  Names = {1}
  Res = {0}
  MaxOps = 2
  Phase = "round"
  Vals = {0}
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
