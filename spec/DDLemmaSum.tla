----------------------------- MODULE DDLemmaSum -----------------------------
(***************************************************************************)
(* The sum geometry against the full geometry.  For every function d of a  *)
(* small sum geometry, the same function spelt out over all its variables  *)
(* (explicit and hidden) has the same dependence, count, probability,      *)
(* importance, canonical size, dual, monotonicity and minimal vectors.     *)
(***************************************************************************)
EXTENDS DDApi

CONSTANTS Ar,        \* numbers of states of the explicit variables
          HK, HW,    \* numbers of states and weights of the hidden ones
          HM, HC,    \* modulus (0: none) or cap of the weighted sum
          Vals,
          Order      \* levels, lowest first: universe index, or -j for hidden variable j

VARIABLE d

GS == SumGeo(Ar, HK, HW, HM, HC)
GF == FullGeo(Ar \o HK)
NX == Len(Ar)
NH == Len(HK)
NN == ProdTo(Ar, NX) * (IF HM > 0 THEN HM ELSE HC + 1)
\* all classes are reached (the generator only makes such geometries)
ASSUME GS.hid.all = 0..((IF HM > 0 THEN HM ELSE HC + 1) - 1)

\* the same order in the full geometry
FOrd == [L \in 1..Len(Order) |->
           [nm |-> "x", u |-> IF Order[L] > 0 THEN Order[L] ELSE NX - Order[L],
            k |-> (Ar \o HK)[IF Order[L] > 0 THEN Order[L] ELSE NX - Order[L]]]]
VARIABLES full, x    \* the full geometry and d spelt out in it

Init ==
  /\ kind = "" /\ geo = GS /\ H = << >> /\ vid = << >> /\ st = << >> /\ thr = << >> /\ gcd = FALSE
  /\ ord = [L \in 1..Len(Order) |-> [nm |-> "x", u |-> Order[L], k |-> FOrd[L].k]]
  /\ d \in [1..NN -> Vals]
  /\ full = GF
  /\ x = [i \in 1..full.n |-> d[PtOf(geo, full.dg[i])]]
Next == UNCHANGED <<apiVars, d, full, x>>
Spec == Init /\ [][Next]_<<apiVars, d, full, x>>

Depending ==
  /\ \A u \in RealVars(geo) : Depends(geo, d, u) = Depends(full, x, u)
  /\ \A j \in 1..NH : DependsH(geo, d, j) = Depends(full, x, NX + j)
Cofactors ==
  \A j \in 1..NH : \A s \in 0..(HK[j] - 1) :
    LET c == Cof(full, x, NX + j, s)
        sh == Shift(geo, d, j, s)
    IN \A i \in Pts(full) : full.dg[i][NX + j] = 0 => c[i] = sh[PtOf(geo, full.dg[i])]
Duals ==
  (Vals \subseteq {0, 1} /\ HM > 0) =>
    LET q == DualDen(geo, d) IN
    DualDen(full, x) = [i \in Pts(full) |-> q[PtOf(geo, full.dg[i])]]
Monotonicity == (UNDET \notin Vals) => (Monotone(geo, d) <=> Monotone(full, x))
Counts ==
  \A sel \in SUBSET Vals : Count(geo, d, ord, sel, 1000003) = Count(full, x, FOrd, sel, 0)
Sizes ==
  /\ \A f \in {"v", "y"} : NodeCount(geo, {d}, ord, f) = NodeCount(full, {x}, FOrd, f)
  /\ (Vals \subseteq {0, 1}) => NodeCount(geo, {d}, ord, "z") = NodeCount(full, {x}, FOrd, "z")
  \* with the hidden variables themselves among the roots
  /\ NodeCountP(geo, {d}, ord, "v", { L \in 1..Len(Order) : Order[L] < 0 }) =
       NodeCount(full, {x} \cup { VarDen(full, NX + j) : j \in 1..NH }, FOrd, "v")
Levels ==
  /\ RootLevel("v", d) = TopLevel(full, x, FOrd)
  /\ RootLevel("y", d) = LET S == { L \in 1..Len(FOrd) : NonRed(full, x, FOrd[L].u, TRUE, UNDET) }
                         IN IF S = {} THEN 0 ELSE CHOOSE L \in S : \A M \in S : M <= L
Minimal ==
  Monotone(geo, d) =>
    \A up \in BOOLEAN :
      LET ways == TLCEval(MinWays(geo.hid, 1, (<<0, {}>> :> 1), up, 1000003))
          ext == IF up THEN MaxVecDen(full, x) ELSE MinVecDen(full, x)
      IN \A v \in Vals :
           /\ MinCount(geo, d, v, up, ways, 1000003) = Cardinality({ i \in Pts(full) : ext[i] = v })
           /\ \A i \in Pts(full) :
                IsExtreme(geo, d, full.dg[i], v, up) = (ext[IF up THEN full.n + 1 - i ELSE i] = v)

W == [v \in Vars(full) |-> [s \in 1..full.ar[v] |-> 2 * v + 3 * s * s]]
HWt == [j \in 1..NH |-> W[NX + j]]
Probabilities ==
  \A sel \in SUBSET Vals :
    Prob(geo, d, Append([v \in 1..NX |-> W[v]], Dist(geo, HWt, 10007)), sel, 10007) =
      Prob(full, x, W, sel, 10007)
Importances ==
  \A sel \in SUBSET Vals : \A j \in 1..NH : \A s \in 1..(HK[j] - 1) :
    BirnbaumH(d, [v \in 1..NX |-> W[v]], HWt, sel, j, s, 10007) =
      Birnbaum(full, x, W, sel, NX + j, s, 10007)
=============================================================================
