SPECIFICATION Spec
CONSTANTS
  MaxStep = 3
  Fmt = "other"
INVARIANTS Ordered Counted Again Fresh Emit
PROPERTY OneFile
CHECK_DEADLOCK FALSE
