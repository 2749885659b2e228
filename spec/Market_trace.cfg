SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
INVARIANTS OpenOnlyReady FeesInBounds
CHECK_DEADLOCK FALSE
