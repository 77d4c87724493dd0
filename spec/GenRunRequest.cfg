SPECIFICATION GSpec
CONSTANTS T = 1 MaxReq = 1 MaxN = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
