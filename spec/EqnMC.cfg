CONSTANTS
  Depth = 5
  Text = 6
SPECIFICATION Spec
INVARIANTS Linear1 IVPParts EVPParts Classes
CHECK_DEADLOCK FALSE
