SPECIFICATION Spec
CONSTANTS MaxLen = 8
INVARIANTS Emit
CHECK_DEADLOCK FALSE
