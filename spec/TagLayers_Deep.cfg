SPECIFICATION Spec
CONSTANTS NF = 3 NL = 3 NT = 3 MaxOps = 6
INVARIANTS Faithful
PROPERTIES NoSilentLoss Local
CHECK_DEADLOCK FALSE
