SPECIFICATION GSpec
CONSTANTS MaxArgs = 4 Pool <- Args NExtra = 4
INVARIANTS Emit Shape
CHECK_DEADLOCK FALSE
