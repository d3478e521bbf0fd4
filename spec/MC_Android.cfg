SPECIFICATION Spec
CONSTANTS MaxTok = 3 MaxKid = 4
INVARIANTS RoundTrip Exact Merged NothingLost Accepted Emit
CHECK_DEADLOCK FALSE
