SPECIFICATION Spec
CONSTANTS
  InSizes = {0, 5, 30}
  OutSizes = {30}
  MaxList = 2
  Cuts = {"no", "len", "body", "more", "beyond"}
  CapIn = 16384
  CapOut = 16384
  Least = 6
  D = 1
INVARIANTS Emit Sound
CHECK_DEADLOCK FALSE
