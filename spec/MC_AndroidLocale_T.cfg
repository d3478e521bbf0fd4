SPECIFICATION Spec
CONSTANTS MaxSub = 3 MaxAtoms = 5
INVARIANTS RoundTrip Stable NotGuessed Emit
CHECK_DEADLOCK FALSE
