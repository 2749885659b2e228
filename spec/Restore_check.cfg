SPECIFICATION Spec
CONSTANTS SimDepth = 0
  Depth = 5
VIEW View
INVARIANTS OpenIsInit CoinsOurs ConfMined EmptyBefore MarketsUsed
PROPERTIES Kept
CHECK_DEADLOCK FALSE
