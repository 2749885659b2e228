SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
INVARIANTS TypeOK NoOpenUnfunded
CHECK_DEADLOCK FALSE
