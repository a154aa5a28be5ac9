SPECIFICATION Spec
INVARIANT LatestText
INVARIANT Emit
PROPERTY Isolated
CONSTANTS Docs = {"a", "b"} MaxMsgs = 3
CHECK_DEADLOCK FALSE
