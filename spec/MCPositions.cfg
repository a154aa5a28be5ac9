SPECIFICATION Spec
INVARIANT Sound
INVARIANT Emit
PROPERTY Stays
CONSTANT MaxLen = 5
CHECK_DEADLOCK FALSE
