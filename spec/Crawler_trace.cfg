SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
INVARIANTS StoppedIsQuiet
CHECK_DEADLOCK FALSE
