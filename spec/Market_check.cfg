SPECIFICATION Spec
CONSTANTS SimDepth = 0
VIEW View

INVARIANTS OpenOnlyReady FeesInBounds
PROPERTIES OpenOnlyPriced TermsOnlyWhileClosed PairFixed
CHECK_DEADLOCK FALSE
