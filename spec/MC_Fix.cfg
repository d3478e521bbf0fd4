SPECIFICATION Spec
CONSTANTS MaxFiles = 2 MaxOrder = 3
INVARIANTS NeverDestroys OnlyVisited AllFixed StopsOnce Same Idempotent Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
