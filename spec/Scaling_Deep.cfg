SPECIFICATION Spec
CONSTANTS Bodies = {"Moon", "Europa", "Earth", "Io"} Mats = {"Ice", "Sand", "Hard Rock", "Granite"} Vals = {7, 11} MaxOps = 5
INVARIANTS Together OfMaterial MaterialWhole Current NeverOtherBody
PROPERTY Explicit
CHECK_DEADLOCK FALSE
