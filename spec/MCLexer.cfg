SPECIFICATION Spec
INVARIANT Incremental
INVARIANT LineCount
INVARIANT NothingLost
INVARIANT Layout
INVARIANT Emit
CONSTANTS
 Pieces = {"a", "1", "-", "_", "(", ")", "?", ":", ";", " ", "\n", "=", "<", ".", "!"}
 MaxPieces = 3
CHECK_DEADLOCK FALSE
