SPECIFICATION Spec
CONSTANTS Bodies = {"Moon", "Europa", "Ceres"} Mats = {"Ice", "Sand", "Granite"} Vals = {7} MaxOps = 4
INVARIANTS Together OfMaterial MaterialWhole Current NeverOtherBody
PROPERTY Explicit
CHECK_DEADLOCK FALSE
