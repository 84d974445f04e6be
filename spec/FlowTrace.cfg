SPECIFICATION Spec
INVARIANT Accept
CHECK_DEADLOCK FALSE
