SPECIFICATION Spec
INVARIANTS MuteLaw Predict
POSTCONDITION Report
CHECK_DEADLOCK FALSE
