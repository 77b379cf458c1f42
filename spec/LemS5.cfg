SPECIFICATION Spec
CONSTANTS
 Focus = {}
 Verbose = FALSE
 Ar <- N1
 HK <- K222
 HW <- W102
 HM = 2
 HC = 0
 Vals = {0, 1, 3}
 Order <- OB
INVARIANTS Depending Cofactors Duals Monotonicity Counts Sizes Levels Minimal Probabilities Importances
CHECK_DEADLOCK FALSE
