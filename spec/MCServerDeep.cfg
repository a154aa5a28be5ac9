SPECIFICATION Spec
INVARIANT Linear
INVARIANT FinalDocs
INVARIANT Exclusive
PROPERTY Answered
CONSTANTS Docs = {"a"} Texts = {1, 2} MaxMsgs = 4 MaxInFlight = 4 SaveLocks = TRUE
CHECK_DEADLOCK FALSE
