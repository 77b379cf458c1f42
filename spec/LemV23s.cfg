SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 Ar <- A23
 Vals = {0, 1, 3}
 MonoOnly = FALSE
 Pairs = FALSE
INVARIANTS CanonicalSize RootIsRoot NodeRebuild
CHECK_DEADLOCK FALSE
