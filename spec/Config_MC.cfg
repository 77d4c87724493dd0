SPECIFICATION Spec
CONSTANTS MaxOps = 3
INVARIANTS Survives ExplicitWins OthersKept MaterialWhole NoLeak
CHECK_DEADLOCK FALSE
