SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS NoMsgLoss Literal AnyText Kept Emit
CHECK_DEADLOCK FALSE
