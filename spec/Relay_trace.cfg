SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
CHECK_DEADLOCK FALSE
