CONSTANTS Limit = 3
Depth = 4
SPECIFICATION Spec
INVARIANT Right Bounded
CHECK_DEADLOCK FALSE
