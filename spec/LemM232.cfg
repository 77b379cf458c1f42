SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 Ar <- A232
 Vals = {0, 1}
 MonoOnly = TRUE
 Pairs = FALSE
INVARIANTS MonotoneIsMonotone MinimalSets MinimalVectors LevelQuery
CHECK_DEADLOCK FALSE
