SPECIFICATION Spec
INVARIANTS ReaderOK Predict
POSTCONDITION Report
CHECK_DEADLOCK FALSE
