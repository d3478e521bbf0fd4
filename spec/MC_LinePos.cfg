SPECIFICATION Spec
CONSTANTS MaxBlocks = 3
 MaxN = 3
INVARIANTS InOrder NoOverlap EveryEntry OnlyItsComment Shifted Emit
CHECK_DEADLOCK FALSE
