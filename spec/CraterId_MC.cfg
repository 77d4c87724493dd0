SPECIFICATION Spec
CONSTANTS Vals = {1, 2} MaxObj = 3 MaxOps = 3
INVARIANTS IdIsFunctionOfKey
PROPERTIES FixedForEver OthersUntouched CopyContract
CHECK_DEADLOCK FALSE
