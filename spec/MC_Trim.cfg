SPECIFICATION Spec
CONSTANTS MaxStep = 3
INVARIANTS Idempotent Clean Directives Keeps SameAsBefore Emit
CHECK_DEADLOCK FALSE
