SPECIFICATION Spec
CONSTANTS SimDepth = 25
CONSTRAINT EmitSim
INVARIANTS OpenOnlyReady FeesInBounds
CHECK_DEADLOCK FALSE
