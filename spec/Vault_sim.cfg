SPECIFICATION Spec
CONSTANTS Max = 12 SimDepth = 20
CONSTRAINT EmitSim
INVARIANTS NoDuplicates
CHECK_DEADLOCK FALSE
