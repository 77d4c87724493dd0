SPECIFICATION Spec
CONSTANTS NSeq = 3 Top = 2 MaxPer = 2 NMax = 2
INVARIANTS OrderHolds InRange KeepsRange ExactKept NotRefused Extents
PROPERTIES Ends
CHECK_DEADLOCK FALSE
