SPECIFICATION Spec
CONSTANTS MaxEdits = 3
INVARIANTS Exact Symmetric Emit
CHECK_DEADLOCK FALSE
