SPECIFICATION Spec
CONSTANTS MaxOps = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
