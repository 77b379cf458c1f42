---------------------------- MODULE DDLemmaDotMC ----------------------------
EXTENDS DDLemmaDot
A22 == <<2, 2>>
A23 == <<2, 3>>
A222 == <<2, 2, 2>>
=============================================================================
