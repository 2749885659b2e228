SPECIFICATION SimSpec
CONSTANTS SimDepth = 60
 Depth = 1000
CONSTRAINT EmitSim
INVARIANTS KindsPartition BalanceIsHeld OneMarketPerQuote CompletedOnly
CHECK_DEADLOCK FALSE
