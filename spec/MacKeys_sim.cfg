SPECIFICATION Spec
CONSTANTS MaxN = 40 MaxM = 40 SimDepth = 30
CONSTRAINT EmitSim
INVARIANTS OpenNeedsPw NoReserved Unique RekeyKeeps
CHECK_DEADLOCK FALSE
