SPECIFICATION Spec
CONSTANTS Versions = 3 Diams = 4 Tmax = 8 MaxOps = 3
INVARIANTS FallsWithDiameter RisesWithSpan EmptySpan Adds CacheFresh AnswersBySettings Bracketed AgeReproduces
PROPERTIES SearchEnds
CHECK_DEADLOCK FALSE
