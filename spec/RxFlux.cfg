SPECIFICATION Spec
CONSTANTS
  Mode = "async"
  Srcs = {"proc"}
  Maps = {FALSE}
  AskSet = {}
  ReactSet = {}
  Acts = {"subscribe","block","attach","push","complete","error","request","cancel","notify","inner"}
  SliceLens = {2}
  Amounts = {1}
  MaxVals = 2
  MaxLst = 1
  D = 4
INVARIANTS Grammar FinallyOnce FinallyRight ListenersOnce ListenersAll ListenersRight InOrder DemandRespected DemandDelivered AskExact OptOut BlockReturns Emit
CHECK_DEADLOCK FALSE
