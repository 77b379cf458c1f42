SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 Ar <- A22
 Vals = {0, 2, 7, 999999999}
 MonoOnly = FALSE
 Pairs = FALSE
INVARIANTS DigitsNumber Counting ListedCovers
CHECK_DEADLOCK FALSE
