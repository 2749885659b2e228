SPECIFICATION Spec
CONSTANTS Max = 2 SimDepth = 0
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS NoDuplicates
PROPERTIES OnlyForward OnlyOpen RekeyLocked OthersUntouched
CHECK_DEADLOCK FALSE
