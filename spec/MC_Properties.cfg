SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Ordered Survives Emit
CHECK_DEADLOCK FALSE
