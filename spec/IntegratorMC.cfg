SPECIFICATION Spec
CONSTANTS Ks = {1, 2, 3}
          Steps = 6
INVARIANTS History Matrices
CHECK_DEADLOCK FALSE
