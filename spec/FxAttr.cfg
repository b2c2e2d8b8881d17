SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OffRemoves OnGives SilenceGivesNothing SkippedIsLeftAlone SyncIsSync PlainLazyIsNot FieldVisWins ModeIsOne GuardsOnlyUnderLock RequiredAsSaid NeedsLocks Emitted
PROPERTIES FieldHelperIsLocal FieldLevelWins
