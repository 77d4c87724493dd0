SPECIFICATION Spec
CONSTANTS MaxOps = 14
INVARIANTS Emit
CHECK_DEADLOCK FALSE
