SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
INVARIANTS Recorded
CHECK_DEADLOCK FALSE
