SPECIFICATION Spec
CONSTANTS SimDepth = 0
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OpenOnlyReady FeesInBounds
PROPERTIES OpenOnlyPriced TermsOnlyWhileClosed PairFixed
CHECK_DEADLOCK FALSE
