SPECIFICATION Spec
CONSTANTS N = 5 FreeBatches = TRUE
INVARIANTS PrefixLegal ActiveDisjoint FormedOnce OrderKept SmallNever NoneLost
CHECK_DEADLOCK FALSE
