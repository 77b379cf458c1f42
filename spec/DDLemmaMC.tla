------------------------------ MODULE DDLemmaMC ------------------------------
EXTENDS DDLemma
A22 == <<2, 2>>
A23 == <<2, 3>>
A33 == <<3, 3>>
A222 == <<2, 2, 2>>
A232 == <<2, 3, 2>>
A2222 == <<2, 2, 2, 2>>
Neg == {0, 2, -3}
=============================================================================
