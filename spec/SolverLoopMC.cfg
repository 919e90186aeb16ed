SPECIFICATION Spec
CONSTANTS Dts = {1, 2, 4}
 Ws = {0, 1}
 MaxIt = 9
CONSTRAINT Bound
INVARIANTS NoOvershoot TimeIsSum StopsWhenReached EvolveSame
CHECK_DEADLOCK FALSE
