SPECIFICATION Spec
INVARIANTS Contract Finds Untouched
POSTCONDITION Report
CHECK_DEADLOCK FALSE
