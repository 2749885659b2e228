SPECIFICATION Spec
CONSTANTS Keys = {"k1", "k2", "k3"} Trades = {"t1", "t2"} MaxRestarts = 1 SimDepth = 25
CONSTRAINT EmitSim
INVARIANTS ReservedNeverAvailable UnlockedWithinTotal LocksOnKnown
CHECK_DEADLOCK FALSE
