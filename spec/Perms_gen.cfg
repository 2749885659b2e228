SPECIFICATION Spec
CONSTANTS SimDepth = 0
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS ReadOnlyNeverWrites Areas AdminAll Disjoint ClosedRefuses
CHECK_DEADLOCK FALSE
