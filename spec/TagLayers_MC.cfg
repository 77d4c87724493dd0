SPECIFICATION Spec
CONSTANTS NF = 3 NL = 2 NT = 3 MaxOps = 4
INVARIANTS Faithful
PROPERTIES NoSilentLoss Local
CHECK_DEADLOCK FALSE
