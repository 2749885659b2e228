SPECIFICATION Spec
CONSTANTS MaxNow = 40 SimDepth = 18
CONSTRAINT EmitSim
INVARIANTS Recorded
CHECK_DEADLOCK FALSE
