SPECIFICATION Spec
CONSTANTS Vals = {1, 2} MaxObj = 3 MaxOps = 4
INVARIANTS IdIsFunctionOfKey
PROPERTIES FixedForEver OthersUntouched CopyContract
CHECK_DEADLOCK FALSE
