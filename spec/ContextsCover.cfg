SPECIFICATION CoverSpec
CONSTANTS
  Calls = {1}
  Asks = {1, 2}
  Insts = {1}
  CForms = {"rr", "fnf", "rs", "rc"}
  AForms = {"rr", "fnf", "rs", "rc"}
  Peer = FALSE
  Mortal = TRUE
  D = 14
INVARIANTS OwnInstance OnlyOwner OneEach
CHECK_DEADLOCK FALSE
VIEW View
PROPERTY OwnerStays
