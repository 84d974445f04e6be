SPECIFICATION CoverSpec
CONSTANTS
  Cs = {1, 2}
  D = 30
VIEW View
INVARIANTS Told NoneLeft
CHECK_DEADLOCK FALSE
