SPECIFICATION Spec
CONSTANTS
  MaxTok = 7
INVARIANTS Function ByExt Unfinished Commented Renamed Nested Emit
CHECK_DEADLOCK FALSE
