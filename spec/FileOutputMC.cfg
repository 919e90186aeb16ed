SPECIFICATION Spec
CONSTANTS MaxWrites = 6 MaxSessions = 3 MaxCrashes = 2 MaxRemovals = 1
INVARIANTS Holds SetsConsecutive NumbersIncrease NumbersConsecutive Gaps WithinLimit
PROPERTY NothingLost
CHECK_DEADLOCK FALSE
