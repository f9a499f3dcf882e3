SPECIFICATION Spec
INVARIANT OneKind
POSTCONDITION Report
CHECK_DEADLOCK FALSE
