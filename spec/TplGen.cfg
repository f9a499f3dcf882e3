SPECIFICATION Spec
INVARIANTS FirstTaken OldGone WrittenOrError Predict
POSTCONDITION Report
CHECK_DEADLOCK FALSE
