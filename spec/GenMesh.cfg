SPECIFICATION Spec
CONSTANTS MaxOps = 10
INVARIANTS Emit
CHECK_DEADLOCK FALSE
