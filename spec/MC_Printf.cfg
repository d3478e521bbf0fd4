SPECIFICATION Spec
CONSTANTS MaxN = 4
INVARIANTS Tiling Complete Emit
CHECK_DEADLOCK FALSE
