SPECIFICATION Spec
CONSTANTS MaxHooks = 2 MaxIds = 3 SimDepth = 0
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Unique Given
PROPERTIES Quiet
CHECK_DEADLOCK FALSE
