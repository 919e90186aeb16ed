SPECIFICATION Spec
INVARIANTS Exact Discerns Accepts
CHECK_DEADLOCK FALSE
