SPECIFICATION Spec
CONSTANTS MaxOps = 5 Vals = {1, 2} Ks = {0, 1, 2}
INVARIANTS ListExact ReadsBack Unsaved Orders
PROPERTIES Independent
CHECK_DEADLOCK FALSE
