SPECIFICATION GSpec
CONSTANTS NF = 3 NL = 8 NT = 12 MaxOps = 24
INVARIANTS Faithful Emit
CHECK_DEADLOCK FALSE
