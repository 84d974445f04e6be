SPECIFICATION Spec
CONSTANTS
  Top = 7
  Side = "server"
  Procs = {p1, p2, p3}
  K = 4
INVARIANTS Parity UniqueInLoop FirstLoopFlag LoopComplete
CHECK_DEADLOCK FALSE
