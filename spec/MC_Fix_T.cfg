SPECIFICATION Spec
CONSTANTS MaxFiles = 3 MaxOrder = 4
INVARIANTS NeverDestroys OnlyVisited AllFixed StopsOnce Same Idempotent Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
