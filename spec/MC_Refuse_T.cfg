SPECIFICATION Spec
CONSTANTS MaxStep = 3
INVARIANTS Seen Monotone TrimAsksLess KeepWords Apart NewWord Plain Emit
CHECK_DEADLOCK FALSE
