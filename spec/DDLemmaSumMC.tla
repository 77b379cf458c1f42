---------------------------- MODULE DDLemmaSumMC ----------------------------
EXTENDS DDLemmaSum
N1 == <<2>>
N3 == <<3>>
K222 == <<2, 2, 2>>
K223 == <<2, 2, 3>>
W111 == <<1, 1, 1>>
W121 == <<1, 2, 1>>
W102 == <<1, 0, 2>>
OA == <<-1, 1, -2, -3>>
OB == <<1, -2, -3, -1>>
OC == <<-3, -2, -1, 1>>
=============================================================================
