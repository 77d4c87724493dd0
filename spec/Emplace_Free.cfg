SPECIFICATION Spec
CONSTANTS N = 4 FreeBatches = TRUE
INVARIANTS PrefixLegal ActiveDisjoint FormedOnce OrderKept SmallNever NoneLost
PROPERTY AllFormed
CHECK_DEADLOCK FALSE
