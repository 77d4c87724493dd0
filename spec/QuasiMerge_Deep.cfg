SPECIFICATION Spec
CONSTANTS MaxD = 3 MaxT = 3 NR = 2 NQ = 2
INVARIANTS MergeRight ExactlyOnceOverall
CHECK_DEADLOCK FALSE
