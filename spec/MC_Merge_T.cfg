SPECIFICATION Spec
CONSTANTS TgtSecs = 2 SrcSecs = 1 Full = TRUE
PROPERTY Guarantee
INVARIANT Emit
CHECK_DEADLOCK FALSE
