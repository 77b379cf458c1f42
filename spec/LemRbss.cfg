SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 MaxLen = 5
 Kind = "bss"
INVARIANTS Spelling Acceptance
CHECK_DEADLOCK FALSE
