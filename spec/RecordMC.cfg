SPECIFICATION Spec
CONSTANTS NX = 3
          NY = 2
          PX = 2
          PY = 2
INVARIANT Right
CHECK_DEADLOCK FALSE
