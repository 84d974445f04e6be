SPECIFICATION Spec
CONSTANTS
  Values = {}
  Wires = {}
  Texts = {}
  Handles = {}
  Phase = "carry"
INVARIANTS RoundTrip Carried Emit
CHECK_DEADLOCK FALSE
