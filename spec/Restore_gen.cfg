SPECIFICATION Spec
CONSTANTS SimDepth = 0
  Depth = 5
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OpenIsInit CoinsOurs ConfMined EmptyBefore MarketsUsed
CHECK_DEADLOCK FALSE
