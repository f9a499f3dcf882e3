SPECIFICATION Spec
INVARIANTS NothingLost SemiRule LongestMatch RejectsForbidden
CHECK_DEADLOCK FALSE
PROPERTY Terminates
