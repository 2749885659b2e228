SPECIFICATION Spec
CONSTANTS SimDepth = 40
CONSTRAINT EmitSim
INVARIANTS StoppedIsQuiet
CHECK_DEADLOCK FALSE
