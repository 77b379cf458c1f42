SPECIFICATION Spec
VIEW View
SYMMETRY Sym
CONSTANTS
 Rule = "z"
 Ar <- ArM
 Ops = {"union", "diff"}
 Slots = {s1, s2, s3}
 MaxStore = 12
 MaxCalls = 5
 Fault = "none"
 Loss = TRUE
 Auto = TRUE
INVARIANTS Meaning Canon Shape Slots1 Reclaimed Tables IteTable TypeOK
PROPERTY Stable
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
