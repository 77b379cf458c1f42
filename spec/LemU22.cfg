SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 Ar <- A22
 Vals = {0, 2, 7, 999999999}
 MonoOnly = FALSE
 Pairs = FALSE
INVARIANTS MonotoneIsMonotone DigitsNumber MinimalSets MinimalVectors LevelQuery CanonicalSize RootIsRoot NodeRebuild Counting ListedCovers Probability Importance
CHECK_DEADLOCK FALSE
