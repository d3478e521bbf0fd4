SPECIFICATION Spec
CONSTANTS MaxEdits = 4
INVARIANTS Exact Symmetric Emit
CHECK_DEADLOCK FALSE
