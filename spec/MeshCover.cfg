SPECIFICATION CoverSpec
VIEW View
CONSTANTS
  Files = {1, 2, 3}
  Names = {}
  Mods = {}
  Ticks = {}
  Acts = {}
  MaxLoads = 3
  Sample = 0
  Helds = 3
  D = 3
INVARIANTS OnePerFile Newest Held
CHECK_DEADLOCK FALSE
