SPECIFICATION Spec
CONSTANT MaxStep = 4
INVARIANTS Sane LeadBack WithRefRoot Priority Emit
PROPERTY HiddenChangesNothing
CHECK_DEADLOCK FALSE
