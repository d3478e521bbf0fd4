SPECIFICATION Spec
CONSTANTS
  MaxTok = 9
INVARIANTS Function ByExt Unfinished Commented Renamed Nested Emit
CHECK_DEADLOCK FALSE
