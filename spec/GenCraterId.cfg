SPECIFICATION GSpec
CONSTANTS MaxObj = 6 MaxOps = 12
INVARIANT Emit
CHECK_DEADLOCK FALSE
