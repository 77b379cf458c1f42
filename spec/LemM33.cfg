SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 Ar <- A33
 Vals = {0, 1, 2}
 MonoOnly = TRUE
 Pairs = FALSE
INVARIANTS MonotoneIsMonotone MinimalSets MinimalVectors LevelQuery
CHECK_DEADLOCK FALSE
