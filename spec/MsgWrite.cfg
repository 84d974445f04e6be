SPECIFICATION Spec
CONSTANTS
  Values = {}
INVARIANTS RoundTrip NoPrefix Heads Emit
CHECK_DEADLOCK FALSE
