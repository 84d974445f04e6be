SPECIFICATION CoverSpec
VIEW View
CONSTANTS
  Sample = 0
  Mods = {}
  Shapes = {}
  Hosts = {1}
  Kinds = {1}
  Acts = {}
  MaxInst = 2
  MaxHeld = 2
  D = 3
INVARIANTS NobodyWaits Refused
CHECK_DEADLOCK FALSE
