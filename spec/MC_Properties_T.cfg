SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS Ordered Survives Emit
CHECK_DEADLOCK FALSE
