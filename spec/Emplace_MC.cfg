SPECIFICATION Spec
CONSTANTS N = 4 FreeBatches = FALSE
INVARIANTS PrefixLegal ActiveDisjoint FormedOnce OrderKept SmallNever NoneLost
PROPERTY AllFormed
CHECK_DEADLOCK FALSE
