SPECIFICATION Spec
CONSTANTS MaxPat = 2 MaxOps = 3
INVARIANTS Idempotent NothingDangles TextKept SetGet Emit
CHECK_DEADLOCK FALSE
