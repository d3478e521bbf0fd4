SPECIFICATION Spec
CONSTANTS MaxSub = 3 MaxAtoms = 4
INVARIANTS RoundTrip Stable NotGuessed Emit
CHECK_DEADLOCK FALSE
