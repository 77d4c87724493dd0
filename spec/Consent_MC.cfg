SPECIFICATION Spec
CONSTANTS Files = {"s0", "s1", "i0", "c0", "x0", "g", "u"} MaxVer = 2 MaxOps = 2
INVARIANTS Consented OwnOnly NoQuestions AllIsAll StopsThere KeptIfRefused ForeignStays
CHECK_DEADLOCK FALSE
