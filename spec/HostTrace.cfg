SPECIFICATION Spec
INVARIANTS Received Objects
POSTCONDITION Report
CHECK_DEADLOCK FALSE
