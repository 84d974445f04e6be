SPECIFICATION Spec
INVARIANTS InOrder
CHECK_DEADLOCK FALSE
