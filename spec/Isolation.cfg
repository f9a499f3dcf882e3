SPECIFICATION Spec
INVARIANTS Isolated Disciplined
POSTCONDITION Report
CHECK_DEADLOCK FALSE
