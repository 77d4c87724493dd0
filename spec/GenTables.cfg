SPECIFICATION Spec
CONSTANTS MaxOps = 16
INVARIANTS Emit
CHECK_DEADLOCK FALSE
