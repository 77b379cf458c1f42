SPECIFICATION Spec
VIEW View
SYMMETRY Sym
CONSTANTS
 Rule = "b"
 Ar <- ArB
 Ops = {"ite", "const"}
 Slots = {s1, s2, s3, s4}
 MaxStore = 12
 MaxCalls = 5
 Fault = "none"
 Loss = TRUE
 Auto = TRUE
INVARIANTS Meaning Canon Shape Slots1 Reclaimed Tables IteTable TypeOK
PROPERTY Stable
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
