SPECIFICATION Spec
CONSTANTS
  Items = {}
  Len0 = 1
  Len1 = 2
  MaxChunks = 2
  Every = {0}
  Near = {}
  Early = TRUE
INVARIANTS Grows Whole Emit
CHECK_DEADLOCK FALSE
