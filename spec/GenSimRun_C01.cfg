SPECIFICATION GSpec
CONSTANTS T = 5 MaxRun = 2 MaxStop = 2 WithRestart = FALSE
INVARIANTS ClockAdds SavedNumbered WorkAdds EndReached Emit
CHECK_DEADLOCK FALSE
