SPECIFICATION Spec
CONSTANTS SimDepth = 0 MaxCoins = 4 MaxSteps = 5 Vals = {1, 5, 50} Targets = {1, 4, 6, 60}
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Conserved
CHECK_DEADLOCK FALSE
