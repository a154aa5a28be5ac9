SPECIFICATION WalkSpec
INVARIANT Completable
INVARIANT Agrees
INVARIANT EmitWalk
CONSTANTS MaxDepth = 99 MaxTokens = 60 Closing = 40
CHECK_DEADLOCK FALSE
