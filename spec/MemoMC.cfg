CONSTANTS Limit = 2
Depth = 3
SPECIFICATION Spec
INVARIANT Right Bounded Refines
CHECK_DEADLOCK FALSE
