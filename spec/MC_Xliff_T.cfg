SPECIFICATION Spec
CONSTANTS MaxEl = 5 MaxTok = 4 EmitEl = 4 EmitSrc = 4
INVARIANTS RoundTrip Writable UnitsKept VariantsKept SectionsNested TextKept Emit
CHECK_DEADLOCK FALSE
