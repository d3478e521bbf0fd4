SPECIFICATION Spec
CONSTANTS
  MaxMap = 1
  MaxRun = 2
  Named = TRUE
  EmitAll = FALSE
INVARIANTS Preserved Told Once Again Places Emit
CHECK_DEADLOCK FALSE
