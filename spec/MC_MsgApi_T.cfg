SPECIFICATION Spec
CONSTANTS MaxToks = 3
INVARIANTS Kept_ Grows Stable Emit
CHECK_DEADLOCK FALSE
