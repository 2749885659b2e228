SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
INVARIANTS ReservedNeverAvailable UnlockedWithinTotal LocksOnKnown
PROPERTIES SpentForever HolderStable
CHECK_DEADLOCK FALSE
