SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 Ar <- A22
 Vals = {0, 1}
 MonoOnly = FALSE
 Pairs = TRUE
INVARIANTS BooleanAlgebra FamilyAlgebra VectorAlgebra ValueAlgebra CanonicalSize
CHECK_DEADLOCK FALSE
