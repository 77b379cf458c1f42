------------------------------ MODULE ForestMC -------------------------------
EXTENDS Forest
ArB == <<2, 2>>
ArB3 == <<2, 2, 2>>
ArM == <<2, 3>>
Sym == Permutations(Slots)
=============================================================================
