SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS NothingLost EntryCount Emit
CHECK_DEADLOCK FALSE
