SPECIFICATION Spec
INVARIANTS EngineInvariant MatcherOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
