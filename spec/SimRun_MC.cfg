SPECIFICATION Spec
CONSTANTS T = 6 MaxRun = 3 MaxStop = 2 WithRestart = TRUE
INVARIANTS ClockAdds SavedNumbered SavedAddUp SavedFall WorkAdds EndReached
PROPERTIES NoRewrite RestartIsLast
CHECK_DEADLOCK FALSE
