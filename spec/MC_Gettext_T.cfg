SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS NothingLost Keeps Emit
CHECK_DEADLOCK FALSE
