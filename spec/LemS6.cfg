SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 Ar <- N1
 HK <- K222
 HW <- W121
 HM = 4
 HC = 0
 Vals = {0, 1}
 Order <- OC
INVARIANTS Depending Cofactors Duals Monotonicity Counts Sizes Levels Minimal Probabilities Importances
CHECK_DEADLOCK FALSE
