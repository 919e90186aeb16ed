SPECIFICATION Spec
CONSTANTS P = 3 Hi = 1
INVARIANTS Right
CHECK_DEADLOCK FALSE
