SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
INVARIANTS AllOrNone NeverBoth EndedOnce Undone NoneIfFnFails
CHECK_DEADLOCK FALSE
