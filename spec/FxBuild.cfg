SPECIFICATION Spec
INVARIANTS TypeOK OnlyKnown CellHeld CanComplete
PROPERTY MovesOnlyComplete
CHECK_DEADLOCK FALSE
