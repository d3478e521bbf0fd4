SPECIFICATION Spec
CONSTANT MaxStep = 5
INVARIANTS Sane LeadBack WithRefRoot Priority Emit
PROPERTY HiddenChangesNothing
CHECK_DEADLOCK FALSE
