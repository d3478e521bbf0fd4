SPECIFICATION Spec
CONSTANTS MaxTok = 8
INVARIANTS Finished Plain Leaf Emit
CHECK_DEADLOCK FALSE
