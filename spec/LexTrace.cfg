SPECIFICATION Spec
INVARIANTS TypeOK TokenInText InsertedOnlyWhenOn
CHECK_DEADLOCK FALSE
