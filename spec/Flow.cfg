SPECIFICATION Spec
CONSTANTS
  Pubs = {"mono", "flux"}
  Items = {"proc", "fproc", "lazy", "now", "just", "err"}
  Ends = {"run", "fail", "ferror", "end", "final"}
  MaxItems = 2
  MaxSteps = 2
  MaxAw = 2
  MaxEv = 4
  Inside = TRUE
INVARIANTS InOrder NoStall Waits OneOutcome EndIsEnd Emit
CHECK_DEADLOCK FALSE
