SPECIFICATION GSpec
CONSTANTS Q = 3 Span = 100
INVARIANTS Canonical Idempotent Emit
CHECK_DEADLOCK FALSE
