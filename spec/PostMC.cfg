SPECIFICATION Spec
CONSTANTS Sets = 4
          Writes = 3
          Workers = 6
INVARIANTS Visits Hands Kept
CHECK_DEADLOCK FALSE
