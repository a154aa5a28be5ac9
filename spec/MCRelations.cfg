SPECIFICATION Spec
INVARIANT Related
INVARIANT Emit
CONSTANTS Rel = "renamed" MaxDomain = 3 MaxProblem = 2 Shift = 1
CHECK_DEADLOCK FALSE
