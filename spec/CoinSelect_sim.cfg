SPECIFICATION Spec
CONSTANTS SimDepth = 20 MaxCoins = 8 MaxSteps = 0 Vals = {1, 2, 3, 5, 7, 50, 9000} Targets = {1, 2, 4, 5, 6, 11, 60, 500, 9001}
CONSTRAINT EmitSim
INVARIANTS Conserved
CHECK_DEADLOCK FALSE
