SPECIFICATION Spec
INVARIANT CyclicIffNoOrder
INVARIANT FitsIsOrder
INVARIANT Emit
PROPERTY StaysCyclic
CONSTANTS Names = {"a", "b", "c"} MaxEdges = 9
CHECK_DEADLOCK FALSE
