SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS NothingLost EntryCount Emit
CHECK_DEADLOCK FALSE
