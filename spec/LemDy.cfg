SPECIFICATION Spec
CONSTANTS
 Focus = {"C19", "C20"}
 Verbose = FALSE
 Ar <- A22
 Vals = {0, 4, 999999999}
 F = "y"
INVARIANTS DotAccepted DotDetermined SnapAccepted SnapDetermined
CHECK_DEADLOCK FALSE
