SPECIFICATION Spec
CONSTANTS MaxId = 6 MaxPart = 2
INVARIANTS KeyReads IsModel IsSchema Emit
CHECK_DEADLOCK FALSE
