SPECIFICATION TSpec
CONSTANTS StartOp <- Start JudgeOp <- Judge
CHECK_DEADLOCK FALSE
