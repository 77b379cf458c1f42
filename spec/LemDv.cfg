SPECIFICATION Spec
CONSTANTS
 Focus = {"C19", "C20"}
 Verbose = FALSE
 Ar <- A23
 Vals = {0, 4, 999999999}
 F = "v"
INVARIANTS DotAccepted DotDetermined SnapAccepted SnapDetermined
CHECK_DEADLOCK FALSE
