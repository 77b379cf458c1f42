SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 Ar <- N1
 HK <- K222
 HW <- W121
 HM = 0
 HC = 3
 Vals = {0, 1}
 Order <- OB
INVARIANTS Depending Cofactors Duals Monotonicity Counts Sizes Levels Minimal Probabilities Importances
CHECK_DEADLOCK FALSE
