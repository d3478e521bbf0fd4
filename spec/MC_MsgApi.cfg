SPECIFICATION Spec
CONSTANTS MaxToks = 2
INVARIANTS Kept_ Grows Stable Emit
CHECK_DEADLOCK FALSE
