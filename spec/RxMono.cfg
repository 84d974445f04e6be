SPECIFICATION Spec
CONSTANTS
  Srcs = {"just", "err", "proc", "create", "sync", "synerr", "f2m", "f2v"}
  Maps = {TRUE, FALSE}
  ReactSet = {}
  Acts = {"subscribe","block","success","error","sinksuccess","sinkerror","cancel","inext","icomplete","ierror","notify"}
  MaxLst = 2
  D = 5
INVARIANTS Grammar OutcomeTold ListenersOnce ListenersAll ListenersRight BlockReturns BlockRight Emit
CHECK_DEADLOCK FALSE
