SPECIFICATION Spec
INVARIANTS TypeOK ConsumedInSource BlameInSource Nested ActionsInSource Meaning CutFinal
CHECK_DEADLOCK FALSE
PROPERTY Terminates
