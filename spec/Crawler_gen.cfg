SPECIFICATION Spec
CONSTANTS SimDepth = 0
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS StoppedIsQuiet
CHECK_DEADLOCK FALSE
