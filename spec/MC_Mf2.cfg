SPECIFICATION Spec
CONSTANTS MaxTok = 2 MaxStep = 3
INVARIANTS ReadIsValid WrittenReads Emit
CHECK_DEADLOCK FALSE
