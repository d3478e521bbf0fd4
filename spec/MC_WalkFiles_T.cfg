SPECIFICATION Spec
CONSTANT MaxRules = 3
INVARIANTS HiddenStayHidden NoneInside Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
