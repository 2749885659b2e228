SPECIFICATION Spec
CONSTANTS SimDepth = 0
 MaxQ = 1
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Bounded PaymentsPositive OwnBase NoBlankSecrets
CHECK_DEADLOCK FALSE
