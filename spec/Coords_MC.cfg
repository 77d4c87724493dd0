SPECIFICATION Spec
CONSTANTS Q = 3 Span = 40
INVARIANTS Canonical Idempotent
PROPERTY MoveRight
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
