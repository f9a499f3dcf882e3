SPECIFICATION Spec
INVARIANTS TypeOK ConsumedInSource BlameInSource Nested ActionsInSource
CHECK_DEADLOCK FALSE
