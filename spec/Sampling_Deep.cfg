SPECIFICATION Spec
CONSTANTS NGrid = 6 Fine = 24 VMax = 12
INVARIANTS SizeBounded SizeQuantile TimeBounded TimeQuantile PointInside SpeedBelow
CHECK_DEADLOCK FALSE
