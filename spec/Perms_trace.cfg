SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
INVARIANTS ReadOnlyNeverWrites Areas AdminAll Disjoint ClosedRefuses
CHECK_DEADLOCK FALSE
