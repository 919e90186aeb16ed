SPECIFICATION Spec
CONSTANTS Iters = 9
 Freqs = {0, 1, 2, 4, 8, 64}
CONSTRAINT Bound
INVARIANTS Growth Shrink Limits FirstUnchanged OnlyOnCadence
CHECK_DEADLOCK FALSE
