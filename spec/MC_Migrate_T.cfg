SPECIFICATION Spec
CONSTANTS
  MaxMap = 2
  MaxRun = 3
  Named = FALSE
  EmitAll = TRUE
INVARIANTS Preserved Told Once Again Places Emit
CHECK_DEADLOCK FALSE
