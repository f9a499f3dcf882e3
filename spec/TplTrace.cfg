SPECIFICATION Spec
INVARIANTS ReaderOK MatcherOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
