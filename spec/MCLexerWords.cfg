SPECIFICATION Spec
INVARIANT Incremental
INVARIANT LineCount
INVARIANT NothingLost
INVARIANT Layout
INVARIANT Emit
CONSTANTS
 Pieces = {"and", "not", "or", "oneof", "forall", "exists", "imply", "probabilistic", "define", "domain", "problem",
   ":typing", ":strips", ":hierarchy", ":equality", ":negative-preconditions", ":universal-preconditions", ":method-preconditions",
   ":tasks", ":ordered-tasks", ":order", ":subtasks", ":htn", "?x", "obj", "12", "0.5", "9223372036854775807", "9223372036854775808",
   "<", ">", "=", "-", "(", ")", " ", "\n", ";c", "\t", "\r", ":", "?", "."}
 MaxPieces = 2
CHECK_DEADLOCK FALSE
