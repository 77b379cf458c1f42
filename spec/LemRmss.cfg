SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 MaxLen = 5
 Kind = "mss"
INVARIANTS Spelling Acceptance
CHECK_DEADLOCK FALSE
