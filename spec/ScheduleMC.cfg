SPECIFICATION Spec
CONSTANTS MaxT = 17
 MaxIter = 12
 Dts = {1, 2}
 Walls = {0, 3}
 SimC = 5
 WallC = 4
 IterC = 3
CONSTRAINT Bound
INVARIANTS ServedOnce ServedAll Near IterExact First Combined
CHECK_DEADLOCK FALSE
