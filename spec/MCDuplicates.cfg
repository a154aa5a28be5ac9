SPECIFICATION Spec
INVARIANT Sound
INVARIANT Emit
PROPERTY Stays
CONSTANTS MaxLen = 4 Entries = {"a", "A", "a-1"}
CHECK_DEADLOCK FALSE
