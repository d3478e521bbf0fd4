SPECIFICATION Spec
CONSTANTS MaxN = 5
INVARIANTS Tiling Complete
CHECK_DEADLOCK FALSE
