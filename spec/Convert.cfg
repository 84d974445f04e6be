SPECIFICATION Spec
CONSTANTS
  Years = {2024}
  Months = {1}
  Days = {1}
  Clocks = {}
  Nanos = {0}
  Offsets = {0}
  Phase = "table"
INVARIANTS Total Emit
CHECK_DEADLOCK FALSE
