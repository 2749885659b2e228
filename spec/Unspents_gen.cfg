SPECIFICATION Spec
CONSTANTS Keys = {"k1", "k2", "k3"} Trades = {"t1", "t2"} MaxRestarts = 1 SimDepth = 0
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS ReservedNeverAvailable UnlockedWithinTotal LocksOnKnown
PROPERTIES SpentForever ImmutableData HolderStable
CHECK_DEADLOCK FALSE
