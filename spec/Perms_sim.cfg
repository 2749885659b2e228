SPECIFICATION Spec
CONSTANTS SimDepth = 14
CONSTRAINT EmitSim
INVARIANTS ReadOnlyNeverWrites Areas AdminAll Disjoint ClosedRefuses
CHECK_DEADLOCK FALSE
