SPECIFICATION Spec
INVARIANT Vanishes
INVARIANT Refines
INVARIANT Class
INVARIANT Emit
PROPERTY Stays
CONSTANT MaxLen = 4
CHECK_DEADLOCK FALSE
