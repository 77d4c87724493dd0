SPECIFICATION Spec
CONSTANTS NSeq = 3 Top = 3 MaxPer = 1 NMax = 3
INVARIANTS OrderHolds InRange KeepsRange ExactKept NotRefused Extents
PROPERTIES Ends
CHECK_DEADLOCK FALSE
