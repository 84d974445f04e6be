SPECIFICATION Spec
CONSTANTS
  Calls = {1}
  Asks = {1, 2}
  Insts = {1}
  CForms = {"rr", "fnf", "rs", "rc"}
  AForms = {"rr", "fnf", "rs", "rc"}
  Peer = FALSE
  Mortal = TRUE
  D = 4
INVARIANTS OwnInstance OnlyOwner OneEach Emit
CHECK_DEADLOCK FALSE

PROPERTY OwnerStays
