SPECIFICATION GSpec
CONSTANTS MaxArgs = 4 Pool <- Args NExtra = 2
INVARIANTS Emit Shape
CHECK_DEADLOCK FALSE
