SPECIFICATION GSpec
CONSTANTS NA = 4 MaxOps = 9
INVARIANTS Explained ResetRight Emit
CHECK_DEADLOCK FALSE
