SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxM = 3 SimDepth = 0
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OpenNeedsPw NoReserved Unique RekeyKeeps
CHECK_DEADLOCK FALSE
