SPECIFICATION Spec
CONSTANTS TgtSecs = 2 SrcSecs = 1 Full = FALSE
PROPERTY Guarantee
INVARIANT Emit
CHECK_DEADLOCK FALSE
