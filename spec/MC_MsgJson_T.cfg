SPECIFICATION Spec
CONSTANTS MaxId = 8 MaxPart = 3
INVARIANTS KeyReads IsModel IsSchema Emit
CHECK_DEADLOCK FALSE
