SPECIFICATION Spec
CONSTANTS MaxStep = 4
INVARIANTS Idempotent Clean Directives Keeps SameAsBefore Emit
CHECK_DEADLOCK FALSE
