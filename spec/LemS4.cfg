SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 Ar <- N1
 HK <- K223
 HW <- W111
 HM = 0
 HC = 2
 Vals = {0, 2, 5}
 Order <- OA
INVARIANTS Depending Cofactors Duals Monotonicity Counts Sizes Levels Minimal Probabilities Importances
CHECK_DEADLOCK FALSE
