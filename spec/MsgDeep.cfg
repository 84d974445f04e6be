SPECIFICATION Spec
CONSTANTS
  Depths = {1}
  Heads = {}
  Chains = {}
INVARIANTS Induct Emit
CHECK_DEADLOCK FALSE
