SPECIFICATION Spec
INVARIANTS OneSink Prefix AllOrError DocumentOK Predict
POSTCONDITION Report
CHECK_DEADLOCK FALSE
