SPECIFICATION Spec
CONSTANTS
  MaxStep = 3
  Fmt = "fluent"
INVARIANTS Ordered Counted Again Fresh Emit
PROPERTY OneFile
CHECK_DEADLOCK FALSE
