SPECIFICATION Spec
CONSTANT MaxStep = 5
INVARIANTS Complete Apart Filter Emit
PROPERTY Steps
CHECK_DEADLOCK FALSE
