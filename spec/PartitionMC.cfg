SPECIFICATION Spec
CONSTANTS MaxN = 12 MaxP = 7 D = 3
INVARIANTS LocalCount Bounded
PROPERTY Reaches
CHECK_DEADLOCK FALSE
