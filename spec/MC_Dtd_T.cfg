SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS NothingLost TokensTile Emit
CHECK_DEADLOCK FALSE
