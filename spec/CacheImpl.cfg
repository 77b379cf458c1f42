SPECIFICATION Spec
INVARIANTS Sound Complete Length
CONSTANTS
 Ids = {0, 1, 2}
 Ops = {0}
 InitBits = 0
 MaxBits = 2
CHECK_DEADLOCK FALSE
