SPECIFICATION Spec
CONSTANTS Kinds = {"target", "scaling", "projectile", "production"} Bases = {"Moon", "Pluto"} Args = {"density", "material", "slope"} MaxObj = 2 MaxOps = 4
INVARIANTS Fresh ExplicitWins
PROPERTY Independent
CHECK_DEADLOCK FALSE
