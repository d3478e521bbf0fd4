SPECIFICATION Spec
CONSTANTS
  MaxStep = 4
  Fmt = "fluent"
INVARIANTS Ordered Counted Again Fresh Emit
PROPERTY OneFile
CHECK_DEADLOCK FALSE
