SPECIFICATION Spec
CONSTANT MaxRules = 2
INVARIANTS HiddenStayHidden NoneInside Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
