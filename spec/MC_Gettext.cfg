SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS NothingLost Keeps Emit
CHECK_DEADLOCK FALSE
