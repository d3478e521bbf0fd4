SPECIFICATION Spec
CONSTANTS MaxTok = 4 MaxKid = 5
INVARIANTS RoundTrip Exact Merged NothingLost Accepted Emit
CHECK_DEADLOCK FALSE
