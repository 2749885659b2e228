SPECIFICATION Spec
CONSTANTS Max = 2 SimDepth = 0
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OneValue Housed NoReserved OpenNeedsPw KeepsData
PROPERTIES LockedQuiet
CHECK_DEADLOCK FALSE
