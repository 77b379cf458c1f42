SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 Ar <- A222
 Vals = {0, 1}
 MonoOnly = FALSE
 Pairs = FALSE
INVARIANTS CanonicalSize RootIsRoot NodeRebuild
CHECK_DEADLOCK FALSE
