SPECIFICATION Spec
CONSTANTS SimDepth = 0
 Depth = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS KindsPartition BalanceIsHeld OneMarketPerQuote CompletedOnly
CHECK_DEADLOCK FALSE
