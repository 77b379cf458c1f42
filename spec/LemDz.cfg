SPECIFICATION Spec
CONSTANTS
 Focus = {"C19", "C20"}
 Verbose = FALSE
 Ar <- A222
 Vals = {0, 1}
 F = "z"
INVARIANTS DotAccepted DotDetermined SnapAccepted SnapDetermined
CHECK_DEADLOCK FALSE
