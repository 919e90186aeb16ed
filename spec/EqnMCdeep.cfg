CONSTANTS
  Depth = 6
  Text = 7
SPECIFICATION Spec
INVARIANTS Linear1 IVPParts EVPParts Classes
CHECK_DEADLOCK FALSE
