SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
INVARIANTS Conserved
CHECK_DEADLOCK FALSE
