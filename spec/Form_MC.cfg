CONSTANTS N = 5
 Local = {0, 1, 2}
 MaxOps = 3
 MaxK = 2
SPECIFICATION Spec
INVARIANTS Conserved NeverNegative
PROPERTIES Footprint LocalOnly NoNewExtremes
CHECK_DEADLOCK FALSE
