SPECIFICATION Spec
CONSTANTS MaxEl = 4 MaxTok = 3 EmitEl = 4 EmitSrc = 3
INVARIANTS RoundTrip Writable UnitsKept VariantsKept SectionsNested TextKept Emit
CHECK_DEADLOCK FALSE
