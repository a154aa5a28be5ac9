SPECIFICATION Spec
INVARIANT Sound
INVARIANT Emit
PROPERTY NoReturn
PROPERTY Decided
CONSTANTS Where = {"last"}
CHECK_DEADLOCK FALSE
