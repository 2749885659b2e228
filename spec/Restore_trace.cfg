SPECIFICATION TSpec
CONSTRAINT Progress
POSTCONDITION Finish
INVARIANTS OpenIsInit CoinsOurs ConfMined EmptyBefore MarketsUsed
CHECK_DEADLOCK FALSE
