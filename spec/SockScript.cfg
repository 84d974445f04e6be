SPECIFICATION Spec
CONSTANTS
  Roles = {"server", "client"}
  Items = {}
  Ends = {""}
  MaxChunk = 1
  D = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
