SPECIFICATION Spec
CONSTANTS Max = 2 SimDepth = 0
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK NoOpenUnfunded
CHECK_DEADLOCK FALSE
