SPECIFICATION Spec
CONSTANTS MaxHooks = 9 MaxIds = 30 SimDepth = 40
CONSTRAINT EmitSim
INVARIANTS Unique Given
CHECK_DEADLOCK FALSE
