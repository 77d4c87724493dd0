SPECIFICATION GSpec
CONSTANTS MaxOps = 14 Vals = {1} Ks = {0, 1, 2, 3}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
