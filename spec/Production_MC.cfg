SPECIFICATION Spec
CONSTANTS Versions = 2 Diams = 3 Tmax = 4 MaxOps = 3
INVARIANTS FallsWithDiameter RisesWithSpan EmptySpan Adds CacheFresh AnswersBySettings Bracketed AgeReproduces
PROPERTIES SearchEnds
CHECK_DEADLOCK FALSE
