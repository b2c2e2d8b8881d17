SPECIFICATION ItemsSpec
CHECK_DEADLOCK FALSE
INVARIANTS NewNeedsDefault NoNeedNoDefault FromSomewhere NothingOnNothing ForwardedIsOwn
PROPERTIES AttributesAreAttributes OtherFieldsKeepTheirs
