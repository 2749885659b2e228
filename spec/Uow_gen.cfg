SPECIFICATION Spec
CONSTANTS Max = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS AllOrNone NeverBoth EndedOnce Undone NoneIfFnFails
CHECK_DEADLOCK FALSE
