SPECIFICATION Spec
CONSTANTS Gs = {1, 3}
          Ps = {1, 2, 3}
          Rounds = 2
          Join = "any"
INVARIANTS Partition Agrees
CHECK_DEADLOCK TRUE
