SPECIFICATION Spec
CONSTANTS NGrid = 4 Fine = 8 VMax = 6
INVARIANTS SizeBounded SizeQuantile TimeBounded TimeQuantile PointInside SpeedBelow
CHECK_DEADLOCK FALSE
