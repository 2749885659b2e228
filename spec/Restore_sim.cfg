SPECIFICATION Spec
CONSTANTS SimDepth = 22
  Depth = 30
CONSTRAINT EmitSim
INVARIANTS OpenIsInit CoinsOurs ConfMined EmptyBefore MarketsUsed
CHECK_DEADLOCK FALSE
