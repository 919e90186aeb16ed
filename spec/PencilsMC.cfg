SPECIFICATION Spec
INVARIANTS Once Square Shared
PROPERTY Ends
CHECK_DEADLOCK FALSE
