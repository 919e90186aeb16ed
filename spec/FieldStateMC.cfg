SPECIFICATION Spec
CONSTANTS Scales = {1, 2, 3} MaxOps = 4
INVARIANTS Kept NoLoss
CHECK_DEADLOCK FALSE
