SPECIFICATION Spec
CONSTANTS
  PortLens = {0, 1, 2, 255, 256, 65535}
  DataLens = {0, 1, 300, 70000}
  Phase = "round"
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
