SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS NothingLost TokensTile Emit
CHECK_DEADLOCK FALSE
