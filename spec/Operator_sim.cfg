SPECIFICATION Spec
CONSTANTS SimDepth = 25
  Depth = 30
CONSTRAINT EmitSim
INVARIANTS OnePair OwnAccount OpenIsBound ReservedUnspent GoneIsSpent InIsOurs ConfirmedIsMined OneSpender
CHECK_DEADLOCK FALSE
