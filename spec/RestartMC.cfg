SPECIFICATION Spec
CONSTANTS Dts = {1, 2}
          Depth = 3
          Max = 3
INVARIANTS Same Initial InFile
CHECK_DEADLOCK FALSE
