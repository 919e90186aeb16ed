CONSTANTS N = 7
MaxChunk = 9
SPECIFICATION Spec
INVARIANT Right Never Frugal BoxLaw
PROPERTY Done
CHECK_DEADLOCK FALSE
