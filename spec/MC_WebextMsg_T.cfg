SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS NoMsgLoss Literal AnyText Kept Emit
CHECK_DEADLOCK FALSE
