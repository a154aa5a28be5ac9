SPECIFICATION Spec
INVARIANT Outcome
INVARIANT NeverPartial
INVARIANT Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
