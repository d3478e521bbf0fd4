SPECIFICATION Spec
CONSTANTS MaxPat = 3 MaxOps = 4
INVARIANTS Idempotent NothingDangles TextKept SetGet Emit
CHECK_DEADLOCK FALSE
