SPECIFICATION Spec
CONSTANTS Vals = {1} MaxLen = 2 MaxOps = 4
INVARIANTS RoundTrip JoinKeeps NoneMixed
CHECK_DEADLOCK FALSE
