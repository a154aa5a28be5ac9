SPECIFICATION Spec
INVARIANT NullableDual
INVARIANT RefinableDual
INVARIANT NullableRefines
INVARIANT Worklist
INVARIANT ClassByCycles
INVARIANT Emit
PROPERTY Monotone
CONSTANTS Tasks = {"A", "B"} Prims = {"x"} MaxSubs = 2 MaxMethods = 3
CHECK_DEADLOCK FALSE
