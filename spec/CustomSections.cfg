SPECIFICATION Spec
CONSTANTS
  Secs = {1}
  MaxSecs = 1
  Phase = "round"
  Vals = {0}
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
