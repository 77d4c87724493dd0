CONSTANTS Params = {"i", "h", "j"}
 Local = {"h", "j"}
 MaxOps = 12
SPECIFICATION Spec
INVARIANTS Matches LocalMatches IndexFits ResultsFit ReuseOnlyIfSame
PROPERTY NothingRefusedIsLost
CHECK_DEADLOCK FALSE
