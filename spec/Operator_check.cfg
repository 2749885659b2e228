SPECIFICATION Spec
CONSTANTS SimDepth = 0
  Depth = 3
VIEW View
INVARIANTS OnePair OwnAccount OpenIsBound ReservedUnspent GoneIsSpent InIsOurs ConfirmedIsMined OneSpender
PROPERTIES PairForever NeverReused SpentForever
CHECK_DEADLOCK FALSE
