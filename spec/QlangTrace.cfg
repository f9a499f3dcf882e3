SPECIFICATION Spec
INVARIANTS MachinesOK NothingLeft
POSTCONDITION Report
CHECK_DEADLOCK FALSE
