SPECIFICATION Spec
INVARIANTS DocumentLaw Predict
POSTCONDITION Report
CHECK_DEADLOCK FALSE
