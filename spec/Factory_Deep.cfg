SPECIFICATION Spec
CONSTANTS Kinds = {"target", "scaling", "projectile", "production"} Bases = {"Moon", "Pluto", "Mars"} Args = {"density", "material", "slope"} MaxObj = 3 MaxOps = 4
INVARIANTS Fresh ExplicitWins
PROPERTY Independent
CHECK_DEADLOCK FALSE
