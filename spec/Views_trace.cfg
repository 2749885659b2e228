SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Finished
CHECK_DEADLOCK FALSE
