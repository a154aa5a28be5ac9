SPECIFICATION Spec
INVARIANT Sound
INVARIANT Emit
CONSTANT MaxCtx = 2
CHECK_DEADLOCK FALSE
