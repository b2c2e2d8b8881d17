SPECIFICATION Spec
INVARIANTS TypeOK CellsAlwaysHold
PROPERTIES BuildsOnlyEmpty OnlyAccessBuilds
CHECK_DEADLOCK FALSE
