SPECIFICATION Spec
INVARIANTS Consistent
POSTCONDITION Report
CHECK_DEADLOCK FALSE
