SPECIFICATION Spec
CONSTANTS Q = 6 Span = 150
INVARIANTS Canonical Idempotent
PROPERTY MoveRight
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
