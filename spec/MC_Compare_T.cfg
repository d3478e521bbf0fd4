SPECIFICATION Spec
CONSTANT MaxStep = 7
INVARIANTS Complete Apart Filter Emit
PROPERTY Steps
CHECK_DEADLOCK FALSE
