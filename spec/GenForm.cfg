SPECIFICATION Spec
CONSTANTS MaxOps = 8
INVARIANTS Emit
CHECK_DEADLOCK FALSE
