SPECIFICATION Spec
CONSTRAINT Note
INVARIANT Inv_
POSTCONDITION Report
CHECK_DEADLOCK FALSE
