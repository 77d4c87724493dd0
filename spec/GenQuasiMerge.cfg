SPECIFICATION GSpec
CONSTANTS MaxD = 5 MaxT = 6 NR = 5 NQ = 4
INVARIANTS MergeRight ExactlyOnceOverall Emit
CHECK_DEADLOCK FALSE
