SPECIFICATION GSpec
VIEW GView
SYMMETRY Sym
CONSTANTS
 Rule = "b"
 Ar <- ArM
 Ops = {"and", "xor"}
 Slots = {s1, s2, s3}
 MaxStore = 12
 MaxCalls = 5
 Fault = "none"
 Loss = FALSE
 Auto = FALSE
INVARIANTS Emit
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
