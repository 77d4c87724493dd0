SPECIFICATION Spec
CONSTANTS Comps = {"x", "y"} MaxOps = 4 Seeds = {1, 2}
INVARIANTS Shared SameResults SameState OwnSeed
PROPERTY Alone
CHECK_DEADLOCK FALSE
