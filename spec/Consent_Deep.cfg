SPECIFICATION Spec
CONSTANTS Files = {"s0", "s1", "i0", "c0", "x0", "x1", "g", "u"} MaxVer = 2 MaxOps = 6
INVARIANTS Consented OwnOnly NoQuestions AllIsAll StopsThere KeptIfRefused ForeignStays
CHECK_DEADLOCK FALSE
