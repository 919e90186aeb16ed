SPECIFICATION Spec
INVARIANTS Pairs Complete Remembers
CHECK_DEADLOCK FALSE
