SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
INVARIANTS OpenNeedsPw NoReserved Unique RekeyKeeps
CHECK_DEADLOCK FALSE
