SPECIFICATION Spec
CONSTANTS Max = 30 SimDepth = 30
CONSTRAINT EmitSim
INVARIANTS TypeOK NoOpenUnfunded
CHECK_DEADLOCK FALSE
