SPECIFICATION Spec
CONSTANTS MaxTok = 3 MaxStep = 4
INVARIANTS ReadIsValid WrittenReads Emit
CHECK_DEADLOCK FALSE
