SPECIFICATION GSpec
CONSTANTS MaxOps = 9
INVARIANTS Emit
CHECK_DEADLOCK FALSE
