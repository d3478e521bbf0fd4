SPECIFICATION Spec
CONSTANTS MaxTok = 11
INVARIANTS Finished Plain Leaf Emit
CHECK_DEADLOCK FALSE
