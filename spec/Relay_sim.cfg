SPECIFICATION Spec
CONSTANTS SimDepth = 60
 MaxQ = 4
CONSTRAINT EmitSim
INVARIANTS Bounded PaymentsPositive OwnBase NoBlankSecrets
CHECK_DEADLOCK FALSE
