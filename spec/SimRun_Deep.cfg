SPECIFICATION Spec
CONSTANTS T = 8 MaxRun = 4 MaxStop = 3 WithRestart = TRUE
INVARIANTS ClockAdds SavedNumbered SavedAddUp SavedFall WorkAdds EndReached
PROPERTIES NoRewrite RestartIsLast
CHECK_DEADLOCK FALSE
