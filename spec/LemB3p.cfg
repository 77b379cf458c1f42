SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 Ar <- A222
 Vals = {0, 1}
 MonoOnly = FALSE
 Pairs = FALSE
INVARIANTS Probability Importance
CHECK_DEADLOCK FALSE
