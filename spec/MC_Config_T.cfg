SPECIFICATION Spec
CONSTANT MaxStep = 4
INVARIANTS Once LeadsBack Answered Moved Hidden Emit
PROPERTY Others
CHECK_DEADLOCK FALSE
