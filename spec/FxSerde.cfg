SPECIFICATION Spec
INVARIANTS TypeOK CellHeld RoundTripFaithful NothingLeftToBuild OwnDocumentAccepted NotReadIsInitial RefusedOnlyForCells
CHECK_DEADLOCK FALSE
