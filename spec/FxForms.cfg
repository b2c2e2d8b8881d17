SPECIFICATION Spec
INVARIANT Table
CHECK_DEADLOCK FALSE
