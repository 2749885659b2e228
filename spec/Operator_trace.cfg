SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Done
INVARIANTS OnePair OwnAccount OpenIsBound ReservedUnspent GoneIsSpent InIsOurs ConfirmedIsMined OneSpender
CHECK_DEADLOCK FALSE
