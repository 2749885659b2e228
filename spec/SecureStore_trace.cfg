SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
INVARIANTS OneValue Housed NoReserved OpenNeedsPw KeepsData
CHECK_DEADLOCK FALSE
