SPECIFICATION Spec
CONSTANTS NA = 3 MaxOps = 3
INVARIANTS Explained ResetRight
PROPERTIES Local RefusalHasNoEffect
CHECK_DEADLOCK FALSE
