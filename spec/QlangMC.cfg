SPECIFICATION Spec
INVARIANTS Lawful ReadsBack InOrder MachineOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
