SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
PROPERTIES OnlyForward OnlyOpen RekeyLocked
CHECK_DEADLOCK FALSE
