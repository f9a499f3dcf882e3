SPECIFICATION Spec
INVARIANT ReaderOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
