SPECIFICATION Spec
INVARIANTS ReaderOK Agreement Predict
POSTCONDITION Report
CHECK_DEADLOCK FALSE
