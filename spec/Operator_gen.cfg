SPECIFICATION Spec
CONSTANTS SimDepth = 0
  Depth = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OnePair OwnAccount OpenIsBound ReservedUnspent GoneIsSpent InIsOurs ConfirmedIsMined OneSpender
CHECK_DEADLOCK FALSE
