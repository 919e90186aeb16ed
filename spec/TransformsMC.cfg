SPECIFICATION Spec
INVARIANT Projected OnlyModes OnlyValid FineKeeps Commute
CHECK_DEADLOCK FALSE
