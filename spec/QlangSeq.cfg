SPECIFICATION Spec
INVARIANTS Lawful MachinesOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
