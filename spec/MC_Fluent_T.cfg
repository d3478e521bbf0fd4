SPECIFICATION Spec
CONSTANTS MaxSel = 3 Few = TRUE
INVARIANTS FlatIsSame WrittenIsSame OneOff Emit
CHECK_DEADLOCK FALSE
