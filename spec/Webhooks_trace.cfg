SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
INVARIANTS Unique Given
CHECK_DEADLOCK FALSE
