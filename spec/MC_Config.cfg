SPECIFICATION Spec
CONSTANT MaxStep = 3
INVARIANTS Once LeadsBack Answered Moved Hidden Emit
PROPERTY Others
CHECK_DEADLOCK FALSE
