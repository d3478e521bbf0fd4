SPECIFICATION Spec
CONSTANTS
  MaxMap = 2
  MaxRun = 2
  Named = TRUE
  EmitAll = FALSE
INVARIANTS Preserved Told Once Again Places Emit
CHECK_DEADLOCK FALSE
