SPECIFICATION Spec
CONSTANTS
  Bases = {}
  Cuts = FALSE
  Vals = {}
  Tails = {}
  Alphabet = {}
  N = 0
  Deep = 24
INVARIANTS Sane Agree Prefix Emit
CHECK_DEADLOCK FALSE
