SPECIFICATION Spec
INVARIANTS DocumentOK AllClosed MatcherOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
