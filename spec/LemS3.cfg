SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 Ar <- N3
 HK <- K223
 HW <- W121
 HM = 0
 HC = 2
 Vals = {0, 1}
 Order <- OC
INVARIANTS Depending Cofactors Duals Monotonicity Counts Sizes Levels Minimal Probabilities Importances
CHECK_DEADLOCK FALSE
