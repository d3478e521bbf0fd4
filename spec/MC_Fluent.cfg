SPECIFICATION Spec
CONSTANTS MaxSel = 2 Few = FALSE
INVARIANTS FlatIsSame WrittenIsSame OneOff Emit
CHECK_DEADLOCK FALSE
