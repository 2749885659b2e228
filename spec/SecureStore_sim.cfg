SPECIFICATION Spec
CONSTANTS Max = 9 SimDepth = 40
CONSTRAINT EmitSim
INVARIANTS OneValue Housed NoReserved OpenNeedsPw KeepsData
CHECK_DEADLOCK FALSE
