SPECIFICATION GSpec
CONSTANTS N = 6 FreeBatches = FALSE
INVARIANTS FormedOnce OrderKept Emit
CHECK_DEADLOCK FALSE
