CONSTANTS
  Depth = 4
  Few = TRUE
SPECIFICATION Spec
INVARIANTS SplitLaw ReplLaw FrechetLaw LinearLaw Calculus Gauss Means
CHECK_DEADLOCK FALSE
