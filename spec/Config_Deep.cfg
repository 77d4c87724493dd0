SPECIFICATION Spec
CONSTANTS MaxOps = 5
INVARIANTS Survives ExplicitWins OthersKept MaterialWhole NoLeak
CHECK_DEADLOCK FALSE
