SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
INVARIANT Completable
INVARIANT Emit
CONSTANT MaxDepth = 3
CHECK_DEADLOCK FALSE
