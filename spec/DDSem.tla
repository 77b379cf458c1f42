-------------------------------- MODULE DDSem --------------------------------
(***************************************************************************)
(* Semantic domain of rust-dd.                                             *)
(*                                                                         *)
(* Every handle of every manager (BDD, ZDD, MDD, MTMDD, MTMDD2, ZMDD)      *)
(* denotes a total function from the assignments of a finite universe of   *)
(* named multi-state variables to integers; UNDET marks "undetermined" (or *)
(* "not a member" for a labelled vector family).  A denotation is a        *)
(* sequence indexed by assignment: assignment i has digit v equal to       *)
(* ((i-1) \div str[v]) % ar[v].                                            *)
(*                                                                         *)
(*   forest "b"  Boolean functions     values 0, 1, UNDET    full reduction *)
(*   forest "v"  value functions       integers, UNDET       full reduction *)
(*   forest "z"  families of sets      0, 1, UNDET           zero-suppressed*)
(*   forest "y"  labelled vector fam.  label or UNDET        zero-suppressed*)
(*                                                                         *)
(* ANY marks points on which the specification says nothing, ANY0 / ANY1   *)
(* points that may be 0 / 1 or undetermined.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

UNDET == 999999999
ANY   == 999999998
\* the listed value or UNDET: a conjunction (disjunction) of 0 (1) with UNDET may be decided
\* by the determined operand alone or be undetermined, depending on the shape of the diagrams
ANY0  == 999999997
ANY1  == 999999996

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
B01(c) == IF c THEN 1 ELSE 0
RangeOf(s) == { s[i] : i \in DOMAIN s }

(***************************** geometry ************************************)
RECURSIVE ProdTo(_, _)
ProdTo(ar, k) == IF k = 0 THEN 1 ELSE ar[k] * ProdTo(ar, k - 1)

\* Hidden variables (sum geometry): see below.
NoHid == [on |-> FALSE, k |-> << >>, w |-> << >>, m |-> 0, c |-> 0, r |-> << >>, all |-> {}]

FullGeo(ar) ==
  LET n == ProdTo(ar, Len(ar))
      str == TLCEval([v \in 1..Len(ar) |-> ProdTo(ar, v - 1)])
  IN [ full |-> TRUE, ar |-> ar, n |-> n, str |-> str, hid |-> NoHid,
       dg |-> TLCEval([i \in 1..n |->
                 TLCEval([v \in 1..Len(ar) |-> ((i - 1) \div str[v]) % ar[v]])]) ]

\* Probe geometry: only the listed assignments are observed (large diagrams).
ProbeGeo(ar, pts) ==
  [ full |-> FALSE, ar |-> ar, n |-> Len(pts), str |-> << >>, hid |-> NoHid, dg |-> pts ]

(* Sum geometry: besides a few explicit variables there are many hidden ones, and every       *)
(* denoted function depends on the hidden variables only through the class of their weighted  *)
(* sum (modulo m, or capped at c).  The class is the last, virtual, variable of the geometry. *)
(* This gives an exact semantics to diagrams with tens or hundreds of variables.              *)
Cls(h, q) == IF h.m > 0 THEN q % h.m ELSE Min2(q, h.c)
\* classes reachable by the hidden variables of the index sequence js
RECURSIVE ReachCls(_, _, _)
ReachCls(h, js, acc) ==
  IF js = << >> THEN acc
  ELSE ReachCls(h, Tail(js),
         TLCEval({ Cls(h, q + h.w[Head(js)] * x) : q \in acc, x \in 0..(h.k[Head(js)] - 1) }))
SumGeo(ar, hk, hw, m, c) ==
  LET h0 == [on |-> TRUE, k |-> hk, w |-> hw, m |-> m, c |-> c, r |-> << >>, all |-> {}]
      base == FullGeo(Append(ar, IF m > 0 THEN m ELSE c + 1))
      nh == Len(hk)
      Js(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
      rs == [j \in 1..nh |->
              { Cls(h0, a + b) : a \in ReachCls(h0, Js(1, j - 1), {0}),
                                 b \in ReachCls(h0, Js(j + 1, nh), {0}) }]
  IN [ base EXCEPT !.full = FALSE,
         !.hid = [h0 EXCEPT !.r = TLCEval(rs), !.all = ReachCls(h0, Js(1, nh), {0})] ]

Vars(g) == 1..Len(g.ar)
\* the declarable variables
RealVars(g) == 1..(Len(g.ar) - B01(g.hid.on))
Virt(g) == Len(g.ar)
Pts(g) == 1..g.n

ConstDen(g, c) == TLCEval([i \in Pts(g) |-> c])
VarDen(g, v) == TLCEval([i \in Pts(g) |-> g.dg[i][v]])

(*************************** pointwise algebra *****************************)
Map1(g, Op(_), a) == TLCEval([i \in Pts(g) |-> Op(a[i])])
Map2(g, Op(_, _), a, b) == TLCEval([i \in Pts(g) |-> Op(a[i], b[i])])
Map3(g, Op(_, _, _), a, b, c) == TLCEval([i \in Pts(g) |-> Op(a[i], b[i], c[i])])

Unk(x) == x \in {ANY, ANY0, ANY1}
Unk2(x, y) == Unk(x) \/ Unk(y)
Und2(x, y) == x = UNDET \/ y = UNDET

\* strict in UNDET
Strict2(Op(_, _), x, y) ==
  IF Unk2(x, y) THEN ANY ELSE IF Und2(x, y) THEN UNDET ELSE Op(x, y)
\* specified on determined operands only
Det2(Op(_, _), x, y) ==
  IF Unk2(x, y) \/ Und2(x, y) THEN ANY ELSE Op(x, y)

B(c) == IF c THEN 1 ELSE 0
And2(x, y) == x * y
Or2(x, y) == Max2(x, y)
Xor2(x, y) == B(x # y)
TDiv(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
TRem(x, y) == x - y * TDiv(x, y)
DivU(x, y) == IF y = 0 THEN UNDET ELSE TDiv(x, y)
RemU(x, y) == IF y = 0 THEN UNDET ELSE TRem(x, y)
Add2(x, y) == x + y
Sub2(x, y) == x - y
Mul2(x, y) == x * y
\* conjunction and disjunction of the multi-valued diagrams
AndM(x, y) == IF Unk2(x, y) THEN ANY
              ELSE IF Und2(x, y) THEN (IF x = 0 \/ y = 0 THEN ANY0 ELSE UNDET) ELSE And2(x, y)
OrM(x, y) == IF Unk2(x, y) THEN ANY
             ELSE IF Und2(x, y) THEN (IF x = 1 \/ y = 1 THEN ANY1 ELSE UNDET) ELSE Or2(x, y)
Not1(x) == IF Unk(x) THEN ANY ELSE IF x = UNDET THEN UNDET ELSE 1 - x
Repl(x, y) == IF Unk2(x, y) THEN ANY ELSE IF x = UNDET THEN y ELSE x
\* if-then-else: the chosen branch where the condition is determined; elsewhere undetermined,
\* or the common value of the branches
Ite3(x, y, z) ==
  IF Unk(x) THEN ANY
  ELSE IF x = UNDET
  THEN IF Unk2(y, z) THEN ANY
       ELSE IF y # z \/ y = UNDET THEN UNDET ELSE IF y = 0 THEN ANY0 ELSE IF y = 1 THEN ANY1 ELSE ANY
  ELSE IF x = 1 THEN y ELSE z
\* a value under a condition: undetermined where the condition does not hold
VIf(x, y) == IF Unk2(x, y) THEN ANY ELSE IF x = 1 THEN y ELSE UNDET
Determined(g, d) == \A i \in Pts(g) : d[i] # UNDET /\ ~Unk(d[i])

Fits(e, o) == \/ e = o \/ e = ANY
              \/ (e = ANY0 /\ o \in {0, UNDET})
              \/ (e = ANY1 /\ o \in {1, UNDET})
Agree(g, exp, obs) == \A i \in Pts(g) : Fits(exp[i], obs[i])

\* Exact observations never contain ANY.
RECURSIVE FoldDen(_, _, _, _)
FoldDen(g, Op(_, _), acc, ds) ==
  IF ds = << >> THEN acc
  ELSE FoldDen(g, Op, Map2(g, Op, acc, Head(ds)), Tail(ds))

KofN(g, k, ds) ==
  TLCEval([i \in Pts(g) |->
     B(Cardinality({ j \in 1..Len(ds) : ds[j][i] = 1 }) >= k)])

\* Complementing every digit maps point i to n+1-i (full geometry).
RECURSIVE SumWK(_, _)
SumWK(h, j) == IF j = 0 THEN 0 ELSE h.w[j] * (h.k[j] - 1) + SumWK(h, j - 1)
DualDen(g, d) ==
  IF ~g.hid.on THEN TLCEval([i \in Pts(g) |-> Not1(d[g.n + 1 - i])])
  ELSE LET W == SumWK(g.hid, Len(g.hid.k))
           V == Virt(g)
           \* complementing the hidden variables turns the sum q into W - q
       IN TLCEval([i \in Pts(g) |->
            LET j == g.n + 1 - i IN
            Not1(d[j + (((W - g.dg[i][V]) % g.hid.m) - g.dg[j][V]) * g.str[V]])])

(************************** families of sets *******************************)
SetAt(g, i) == { v \in Vars(g) : g.dg[i][v] = 1 }
Family(g, d) == { SetAt(g, i) : i \in { j \in Pts(g) : d[j] = 1 } }
CharDen(g, F) == TLCEval([i \in Pts(g) |-> B(SetAt(g, i) \in F)])
Product(F, G) == { s \cup t : s \in F, t \in G }
Quotient(U, F, G) ==
  { s \in SUBSET U : \A t \in G : (s \cap t = {}) /\ (s \cup t \in F) }

(************************ dependence and counting **************************)
Depends(g, d, v) ==
  \E i \in Pts(g) : g.dg[i][v] < g.ar[v] - 1 /\ d[i] # d[i + g.str[v]]

Cof(g, d, v, s) ==
  TLCEval([i \in Pts(g) |-> d[i + (s - g.dg[i][v]) * g.str[v]]])

\* the function left when hidden variable j is in state s
Shift(g, d, j, s) ==
  LET V == Virt(g)
      to == TLCEval([q \in 0..(g.ar[V] - 1) |-> (Cls(g.hid, q + g.hid.w[j] * s) - q) * g.str[V]])
  IN TLCEval([i \in Pts(g) |-> d[i + to[g.dg[i][V]]]])
DependsH(g, d, j) ==
  LET V == Virt(g) IN
  g.hid.w[j] # 0 /\
  \E x \in 1..(g.hid.k[j] - 1) : \E i \in Pts(g) :
     g.dg[i][V] \in g.hid.r[j] /\
     d[i] # d[i + (Cls(g.hid, g.dg[i][V] + g.hid.w[j] * x) - g.dg[i][V]) * g.str[V]]

\* ord: sequence of [u |-> universe index, 0 for a filler, -j for hidden variable j,
\* k |-> #states], lowest level first.
DependsU(g, d, u) == IF u > 0 THEN Depends(g, d, u) ELSE u < 0 /\ DependsH(g, d, -u)
TopLevel(g, d, ord) ==
  LET S == { L \in 1..Len(ord) : DependsU(g, d, ord[L].u) }
  IN IF S = {} THEN 0 ELSE CHOOSE L \in S : \A M \in S : M <= L

RECURSIVE FillProd(_, _, _)
\* product of the numbers of states of the fillers at levels 1..L, modulo m (0: exact)
FillProd(ord, L, m) ==
  IF L = 0 THEN 1
  ELSE LET r == FillProd(ord, L - 1, m) * (IF ord[L].u = 0 THEN ord[L].k ELSE 1)
       IN IF m = 0 THEN r ELSE r % m

\* Points whose variables above the top variable (or undeclared) sit at state 0:
\* one representative per assignment of the variables up to the top variable.
BelowTop(g, d, ord) ==
  LET t == TopLevel(g, d, ord)
      low == { ord[L].u : L \in 1..t } \ {0}
  IN { i \in Pts(g) : \A v \in RealVars(g) : v \in low \/ g.dg[i][v] = 0 }

(* total weight (modulo m) of the assignments of the hidden variables per class; ws: weights   *)
(* of the states of each hidden variable.  Result: sequence indexed by class + 1.              *)
RECURSIVE SumTo(_, _, _)
SumTo(Op(_), k, m) == IF k < 0 THEN 0 ELSE (SumTo(Op, k - 1, m) + Op(k)) % m
RECURSIVE DistFrom(_, _, _, _, _)
DistFrom(h, ws, j, acc, m) ==
  IF j > Len(ws) THEN acc
  ELSE LET P == Len(acc)
           w == h.w[j]
           top == h.k[j] - 1
           one(q) ==
             IF h.m > 0
             THEN SumTo(LAMBDA x : (acc[((q - w * x) % P) + 1] * ws[j][x + 1]) % m, top, m)
             ELSE IF q < h.c
             THEN SumTo(LAMBDA x : IF q >= w * x THEN (acc[q - w * x + 1] * ws[j][x + 1]) % m
                                   ELSE 0, top, m)
             ELSE SumTo(LAMBDA x :
                    SumTo(LAMBDA p : IF p + w * x >= h.c THEN (acc[p + 1] * ws[j][x + 1]) % m
                                     ELSE 0, h.c, m), top, m)
       IN IF w = 0 /\ \A x \in 1..top : ws[j][x + 1] = 0 /\ ws[j][1] = 1
          THEN DistFrom(h, ws, j + 1, acc, m)
          ELSE DistFrom(h, ws, j + 1, TLCEval([q \in 1..P |-> one(q - 1)]), m)
Dist(g, ws, m) ==
  DistFrom(g.hid, ws, 1, [q \in 1..g.ar[Virt(g)] |-> B(q = 1)], m)
\* unit weights for the hidden variables in J, the others fixed at state 0
UnitW(g, J) ==
  [j \in 1..Len(g.hid.k) |-> [x \in 1..g.hid.k[j] |-> B(x = 1 \/ j \in J)]]
HidBelow(ord, t) == { -ord[L].u : L \in { M \in 1..t : ord[M].u < 0 } }
RECURSIVE SumOverSet(_, _, _)
SumOverSet(Op(_), S, m) ==
  IF S = {} THEN 0
  ELSE LET x == CHOOSE y \in S : TRUE IN (Op(x) + SumOverSet(Op, S \ {x}, m)) % m

CountH(g, d, ord, sel, m, t) ==
  LET ds == Dist(g, UnitW(g, HidBelow(ord, t)), m)
  IN (SumOverSet(LAMBDA i : ds[g.dg[i][Virt(g)] + 1],
                 { i \in BelowTop(g, d, ord) : d[i] \in sel }, m) * FillProd(ord, t, m)) % m

Count(g, d, ord, sel, m) ==
  IF TopLevel(g, d, ord) = 0 THEN B(d[1] \in sel)
  ELSE IF g.hid.on THEN CountH(g, d, ord, sel, m, TopLevel(g, d, ord))
  ELSE LET c == Cardinality({ i \in BelowTop(g, d, ord) : d[i] \in sel })
           r == c * FillProd(ord, TopLevel(g, d, ord), m)
       IN IF m = 0 THEN r ELSE r % m

\* The assignments enumerated for d and sel: digit per universe variable, -1 if not listed.
Listed(g, d, ord, sel) ==
  LET t == TopLevel(g, d, ord)
      low == { ord[L].u : L \in 1..t } \ {0}
  IN { [v \in Vars(g) |-> IF v \in low THEN g.dg[i][v] ELSE -1] :
         i \in { j \in BelowTop(g, d, ord) : d[j] \in sel } }

(*********************** canonical diagram size ****************************)
\* A node of the canonical diagram at level L is a distinct subfunction over
\* the levels <= L that is not redundant at L.
NonRedH(g, f, j, zs, null) ==
  IF zs
  THEN \E x \in 1..(g.hid.k[j] - 1) : \E i \in Pts(g) :
         g.dg[i][Virt(g)] \in { Cls(g.hid, q + g.hid.w[j] * x) : q \in g.hid.r[j] } /\ f[i] # null
  ELSE DependsH(g, f, j)
NonRed(g, f, u, zs, null) ==
  IF u = 0 THEN FALSE
  ELSE IF u < 0 THEN NonRedH(g, f, -u, zs, null)
  ELSE IF zs THEN \E i \in Pts(g) : g.dg[i][u] > 0 /\ f[i] # null
  ELSE Depends(g, f, u)

RECURSIVE RNodes(_, _, _, _, _, _)
RNodes(g, S, ord, L, zs, null) ==
  IF L = 0 THEN 0
  ELSE LET u == ord[L].u IN
       IF u = 0 THEN RNodes(g, S, ord, L - 1, zs, null)
       ELSE LET here == Cardinality({ f \in S : NonRed(g, f, u, zs, null) })
                next == { Cof(g, f, u, s) : f \in S, s \in 0..(g.ar[u] - 1) }
            IN here + RNodes(g, next, ord, L - 1, zs, null)

ZS(f) == f \in {"z", "y"}
Null(f) == IF f = "y" THEN UNDET ELSE 0
\* Sum geometry.  low[L]: classes reachable by the hidden variables below level L.  pins: the
\* levels whose variable itself is also a root.
RECURSIVE LowSeq(_, _, _)
LowSeq(g, ord, acc) ==
  LET L == Len(acc) IN
  IF L > Len(ord) THEN acc
  ELSE LowSeq(g, ord, Append(acc,
         IF ord[L].u < 0 THEN ReachCls(g.hid, << -ord[L].u >>, acc[L]) ELSE acc[L]))
RECURSIVE RNodesH(_, _, _, _, _, _, _, _)
RNodesH(g, S, ord, L, zs, null, low, pins) ==
  IF L = 0 THEN 0
  ELSE LET u == ord[L].u IN
       IF u = 0 THEN RNodesH(g, S, ord, L - 1, zs, null, low, pins)
       ELSE LET V == Virt(g)
                Mask(f) == TLCEval([i \in Pts(g) |-> IF g.dg[i][V] \in low[L] THEN f[i] ELSE 0])
                Cs(f) == TLCEval([x \in 1..ord[L].k |->
                           Mask(IF u > 0 THEN Cof(g, f, u, x - 1) ELSE Shift(g, f, -u, x - 1))])
                tup == TLCEval({ Cs(f) : f \in S })
                nul == Mask(ConstDen(g, null))
                good == { t \in tup : IF zs THEN \E x \in 2..ord[L].k : t[x] # nul
                                      ELSE \E x \in 2..ord[L].k : t[x] # t[1] }
                extra == IF L \in pins
                         THEN { TLCEval([x \in 1..ord[L].k |-> Mask(ConstDen(g, x - 1))]) } ELSE {}
                next == TLCEval(UNION { { t[x] : x \in 1..ord[L].k } : t \in tup })
            IN Cardinality(good \cup extra)
               + RNodesH(g, next, ord, L - 1, zs, null, low, pins)
NodeCountP(g, S, ord, f, pins) ==
  RNodesH(g, S, ord, Len(ord), ZS(f), Null(f), LowSeq(g, ord, <<{0}>>), pins)
NodeCount(g, S, ord, f) ==
  IF g.hid.on THEN NodeCountP(g, S, ord, f, {})
  ELSE RNodes(g, S, ord, Len(ord), ZS(f), Null(f))
Values(S) == UNION { RangeOf(d) : d \in S }

(************************* minimal paths and cuts **************************)
\* hidden variable j from state x to x + 1
MonotoneH(g, d, j) ==
  LET V == Virt(g) IN
  \A x \in 1..(g.hid.k[j] - 1) : \A i \in Pts(g) :
    LET q == g.dg[i][V] IN
    q \in { Cls(g.hid, p + g.hid.w[j] * (x - 1)) : p \in g.hid.r[j] } =>
      d[i] <= d[i + (Cls(g.hid, q + g.hid.w[j]) - q) * g.str[V]]
Monotone(g, d) ==
  IF g.hid.on
  THEN /\ \A i \in Pts(g), v \in RealVars(g) :
            g.dg[i][v] < g.ar[v] - 1 => d[i] <= d[i + g.str[v]]
       /\ \A j \in 1..Len(g.hid.k) : MonotoneH(g, d, j)
  ELSE \A i \in Pts(g), v \in Vars(g) :
     g.dg[i][v] < g.ar[v] - 1 => d[i] <= d[i + g.str[v]]

\* binary: characteristic function of the family of minimal path sets / cut sets
MinPathDen(g, d) ==
  TLCEval([i \in Pts(g) |->
     B(d[i] = 1 /\ \A v \in Vars(g) : g.dg[i][v] > 0 => d[i - g.str[v]] = 0)])
MinCutDen(g, d) ==
  TLCEval([i \in Pts(g) |-> LET j == g.n + 1 - i IN
     B(d[j] = 0 /\ \A v \in Vars(g) : g.dg[j][v] = 0 => d[j + g.str[v]] = 1)])

\* multi-state: vectors minimal (maximal) among those of equal performance,
\* labelled with it.  Cut families are in "levels below maximum" coordinates.
MinVecDen(g, d) ==
  TLCEval([i \in Pts(g) |->
     IF \A v \in Vars(g) : g.dg[i][v] > 0 => d[i - g.str[v]] # d[i]
     THEN d[i] ELSE UNDET])
MaxVecDen(g, d) ==
  TLCEval([i \in Pts(g) |-> LET j == g.n + 1 - i IN
     IF \A v \in Vars(g) : g.dg[j][v] < g.ar[v] - 1 => d[j + g.str[v]] # d[j]
     THEN d[j] ELSE UNDET])

\* Definitional versions (checked equal to the above in the lemma models).
Leq(g, i, j) == \A v \in Vars(g) : g.dg[i][v] <= g.dg[j][v]
MinPathDef(g, d) ==
  { SetAt(g, i) : i \in { p \in Pts(g) : d[p] = 1 /\
        \A q \in Pts(g) : (d[q] = 1 /\ SetAt(g, q) \subseteq SetAt(g, p)) => q = p } }
MinCutDef(g, d) ==
  LET U == Vars(g)
      cuts == { s \in SUBSET U : \E i \in Pts(g) : SetAt(g, i) = U \ s /\ d[i] = 0 }
  IN { s \in cuts : \A t \in cuts : t \subseteq s => t = s }
MinAmong(g, S) == { i \in S : \A j \in S : Leq(g, j, i) => j = i }
MaxAmong(g, S) == { i \in S : \A j \in S : Leq(g, i, j) => j = i }

\* the state vector (a tuple of states of the variables vs, -1 elsewhere) of a raw point
StateVec(g, i, rev, vs) ==
  LET p == IF rev THEN g.dg[g.n + 1 - i] ELSE g.dg[i]
  IN [v \in Vars(g) |-> IF v \in vs THEN p[v] ELSE -1]
\* vectors of a labelled family under the selected labels
FamVecs(g, d, sel, rev, vs) ==
  { StateVec(g, i, rev, vs) : i \in { j \in Pts(g) : d[j] # UNDET /\ d[j] \in sel } }
\* extract_level: strata on the relevant side of v, dominated vectors removed
LevelVecs(g, d, v, rev, vs) ==
  LET S == { i \in Pts(g) : d[i] # UNDET /\ (IF rev THEN d[i] <= v ELSE d[i] >= v) }
  IN { StateVec(g, i, rev, vs) : i \in MinAmong(g, S) }

(* Sum geometry: the vectors minimal (up = FALSE) or maximal (up = TRUE) among those of equal   *)
(* value.  A vector of hidden states is summarised by its class q and the set D of the classes *)
(* reached by changing one component by one step; MinWays counts vectors per <<q, D>>.         *)
RECURSIVE MinWays(_, _, _, _, _)
MinWays(h, j, acc, up, m) ==
  IF j > Len(h.k) THEN acc
  ELSE LET w == h.w[j]
           step(a, x) ==
             << Cls(h, a[1] + w * x),
                { Cls(h, e + w * x) : e \in a[2] } \cup
                (IF up THEN (IF x < h.k[j] - 1 THEN { Cls(h, a[1] + w * (x + 1)) } ELSE {})
                 ELSE (IF x > 0 THEN { Cls(h, a[1] + w * (x - 1)) } ELSE {})) >>
           pairs == (DOMAIN acc) \X (0..(h.k[j] - 1))
           img == TLCEval([p \in pairs |-> step(p[1], p[2])])
           new == TLCEval([b \in { img[p] : p \in pairs } |->
                    SumOverSet(LAMBDA p : acc[p[1]], { p \in pairs : img[p] = b }, m)])
       IN MinWays(h, j + 1, new, up, m)
\* number (modulo m) of minimal / maximal vectors with value v
MinCount(g, d, v, up, ways, m) ==
  LET V == Virt(g)
      At(i, q) == d[i + (q - g.dg[i][V]) * g.str[V]]
      base == { i \in Pts(g) : g.dg[i][V] = 0 }
      ok(i, a) ==
        /\ At(i, a[1]) = v
        /\ \A e \in a[2] : At(i, e) # v
        /\ \A x \in RealVars(g) :
             IF up THEN g.dg[i][x] < g.ar[x] - 1 => At(i + g.str[x], a[1]) # v
             ELSE g.dg[i][x] > 0 => At(i - g.str[x], a[1]) # v
  IN SumOverSet(LAMBDA p : ways[p[2]],
                { p \in base \X DOMAIN ways : ok(p[1], p[2]) }, m)
\* class / point of a full vector: exposed digits first, then hidden states
RECURSIVE HSum(_, _, _, _)
HSum(h, vec, off, j) == IF j = 0 THEN 0 ELSE h.w[j] * vec[off + j] + HSum(h, vec, off, j - 1)
RECURSIVE ESum(_, _, _)
ESum(g, vec, v) == IF v = 0 THEN 0 ELSE g.str[v] * vec[v] + ESum(g, vec, v - 1)
NE(g) == Len(g.ar) - 1
PtOf(g, vec) ==
  1 + ESum(g, vec, NE(g)) +
  g.str[Virt(g)] * Cls(g.hid, HSum(g.hid, vec, NE(g), Len(g.hid.k)))
ArAt(g, x) == IF x <= NE(g) THEN g.ar[x] ELSE g.hid.k[x - NE(g)]
IsExtreme(g, d, vec, v, up) ==
  /\ d[PtOf(g, vec)] = v
  /\ \A x \in 1..Len(vec) :
       IF up THEN vec[x] < ArAt(g, x) - 1 => d[PtOf(g, [vec EXCEPT ![x] = @ + 1])] # v
       ELSE vec[x] > 0 => d[PtOf(g, [vec EXCEPT ![x] = @ - 1])] # v

(****************************** probability ********************************)
RECURSIVE WProd(_, _, _, _, _)
\* product of the state weights of point i over variables 1..k except x, modulo m (0: exact)
WProd(g, w, i, k, mx) ==
  IF k = 0 THEN 1
  ELSE LET r == WProd(g, w, i, k - 1, mx) *
                (IF k = mx.x THEN 1 ELSE w[k][g.dg[i][k] + 1])
       IN IF mx.m = 0 THEN r ELSE r % mx.m

RECURSIVE SumSet(_, _)
SumSet(Op(_), S) ==
  IF S = {} THEN 0
  ELSE LET x == CHOOSE y \in S : TRUE IN Op(x) + SumSet(Op, S \ {x})

RECURSIVE SumPts(_, _, _)
\* sum of Op over points 1..k, modulo m (0: exact)
SumPts(Op(_), k, m) ==
  IF k = 0 THEN 0
  ELSE LET r == SumPts(Op, k - 1, m) + Op(k) IN IF m = 0 THEN r ELSE r % m

Prob(g, d, w, sel, m) ==
  SumPts(LAMBDA i : IF d[i] # UNDET /\ d[i] \in sel
                    THEN WProd(g, w, i, Len(g.ar), [x |-> 0, m |-> m]) ELSE 0, g.n, m)
\* probability given that variable x is in state s
CondProb(g, d, w, sel, x, s, m) ==
  SumPts(LAMBDA i : IF g.dg[i][x] = s /\ d[i] # UNDET /\ d[i] \in sel
                    THEN WProd(g, w, i, Len(g.ar), [x |-> x, m |-> m]) ELSE 0, g.n, m)
Birnbaum(g, d, w, sel, x, s, m) ==
  LET r == CondProb(g, d, w, sel, x, s, m) - CondProb(g, d, w, sel, x, s - 1, m)
  IN IF m = 0 THEN r ELSE (r + m) % m

(************************ operator semantics *******************************)
MV(kind) == kind \in {"mtmdd2", "mss"}
ArithOps == {"add", "sub", "mul", "div", "rem", "min", "max"}
LogicOps == {"and", "or", "xor", "not", "imp", "nand", "nor", "xnor"}
CmpOps == {"eq", "neq", "lt", "lte", "gt", "gte"}

\* Result forest of an operator given the argument forests.
OutForest(op, fs) ==
  CASE op \in CmpOps -> "b"
    [] op \in ArithOps -> "v"
    [] op \in LogicOps \cup {"andn", "orn", "kofn", "dual"} -> "b"
    [] op \in {"ite", "vif"} -> fs[2]
    [] OTHER -> fs[1]

CmpFn(g, op, a, b) ==
  CASE op = "eq"  -> Map2(g, LAMBDA x, y : Det2(LAMBDA p, q : B(p = q), x, y), a, b)
    [] op = "neq" -> Map2(g, LAMBDA x, y : Det2(LAMBDA p, q : B(p # q), x, y), a, b)
    [] op = "lt"  -> Map2(g, LAMBDA x, y : Det2(LAMBDA p, q : B(p < q), x, y), a, b)
    [] op = "lte" -> Map2(g, LAMBDA x, y : Det2(LAMBDA p, q : B(p <= q), x, y), a, b)
    [] op = "gt"  -> Map2(g, LAMBDA x, y : Det2(LAMBDA p, q : B(p > q), x, y), a, b)
    [] op = "gte" -> Map2(g, LAMBDA x, y : Det2(LAMBDA p, q : B(p >= q), x, y), a, b)

\* The denotation an operator must return: fs argument forests, ds argument
\* denotations, p an integer parameter (k of k-of-n, a constant).
Sem(g, kind, op, fs, ds, p) ==
  LET D2(Op(_, _)) == Map2(g, LAMBDA x, y : Det2(Op, x, y), ds[1], ds[2])
      A2(Op(_, _)) == Map2(g, LAMBDA x, y : Strict2(Op, x, y), ds[1], ds[2])
      allB == \A i \in DOMAIN fs : fs[i] = "b"
      allV == \A i \in DOMAIN fs : fs[i] = "v"
  IN
  CASE op \in LogicOps /\ MV(kind) /\ ~allB -> ConstDen(g, UNDET)
    [] op \in ArithOps /\ MV(kind) /\ ~allV -> ConstDen(g, UNDET)
    [] op \in CmpOps /\ MV(kind) /\ fs[1] # fs[2] -> ConstDen(g, UNDET)
    [] op \in {"lt", "lte", "gt", "gte"} /\ allB -> ConstDen(g, ANY)
    [] op = "ite" /\ MV(kind) /\ fs[1] # "b" -> ConstDen(g, UNDET)
    [] op = "and" -> Map2(g, AndM, ds[1], ds[2])
    [] op = "or"  -> Map2(g, OrM, ds[1], ds[2])
    [] op = "not" -> Map1(g, Not1, ds[1])
    [] op = "xor" -> D2(Xor2)
    [] op = "imp" -> D2(LAMBDA x, y : B(x <= y))
    [] op = "nand" -> D2(LAMBDA x, y : 1 - And2(x, y))
    [] op = "nor" -> D2(LAMBDA x, y : 1 - Or2(x, y))
    [] op = "xnor" -> D2(LAMBDA x, y : B(x = y))
    [] op = "ite" -> Map3(g, Ite3, ds[1], ds[2], ds[3])
    [] op = "andn" -> FoldDen(g, AndM, ConstDen(g, 1), ds)
    [] op = "orn" -> FoldDen(g, OrM, ConstDen(g, 0), ds)
    [] op = "kofn" -> KofN(g, p, ds)
    [] op = "dual" -> DualDen(g, ds[1])
    [] op = "vif" -> Map2(g, VIf, ds[1], ds[2])
    [] op = "replace" -> Map2(g, Repl, ds[1], ds[2])
    [] op = "add" -> A2(Add2)
    [] op = "sub" -> A2(Sub2)
    [] op = "mul" -> A2(Mul2)
    [] op = "div" -> A2(DivU)
    [] op = "rem" -> A2(RemU)
    [] op = "min" -> A2(Min2)
    [] op = "max" -> A2(Max2)
    [] op = "minn" -> FoldDen(g, LAMBDA x, y : Strict2(Min2, x, y), ds[1], Tail(ds))
    [] op = "maxn" -> FoldDen(g, LAMBDA x, y : Strict2(Max2, x, y), ds[1], Tail(ds))
    [] op \in CmpOps -> CmpFn(g, op, ds[1], ds[2])
    \* families of sets
    [] op = "union" -> Map2(g, Or2, ds[1], ds[2])
    [] op = "intersect" -> Map2(g, And2, ds[1], ds[2])
    [] op = "setdiff" -> Map2(g, LAMBDA x, y : x * (1 - y), ds[1], ds[2])
    [] op = "product" -> CharDen(g, Product(Family(g, ds[1]), Family(g, ds[2])))
    [] op = "divide" ->
         IF Family(g, ds[2]) = {} THEN ConstDen(g, ANY)
         ELSE CharDen(g, Quotient(Vars(g), Family(g, ds[1]), Family(g, ds[2])))
    \* labelled families of vectors
    [] op = "yintersect" -> Map2(g, LAMBDA x, y : IF x = y THEN x ELSE UNDET, ds[1], ds[2])
    [] op = "ysetdiff" -> Map2(g, LAMBDA x, y : IF x # y THEN x ELSE UNDET, ds[1], ds[2])

\* Shannon/zero-suppressed node construction: children denotations ds[s+1] for
\* state s of universe variable u.
MkNode(g, f, u, ds) ==
  IF ZS(f)
  THEN TLCEval([i \in Pts(g) |->
         LET s == g.dg[i][u] IN ds[s + 1][i - s * g.str[u]]])
  ELSE TLCEval([i \in Pts(g) |-> ds[g.dg[i][u] + 1][i]])

(************************ reverse Polish expressions ***********************)
\* Tokens: [t |-> "op", o |-> operator], [t |-> "const", f, v], [t |-> "var", u],
\* [t |-> "save", n], [t |-> "load", n].
Arity(o) == IF o = "not" THEN 1 ELSE IF o = "ite" THEN 3 ELSE 2

RECURSIVE RpnRun(_, _, _, _, _, _)
\* result: [ok |-> BOOLEAN, f, d]
RpnRun(g, kind, toks, i, stack, saved) ==
  IF i > Len(toks)
  THEN IF Len(stack) = 1 THEN [ok |-> TRUE, f |-> stack[1].f, d |-> stack[1].d]
       ELSE [ok |-> FALSE, f |-> "", d |-> << >>]
  ELSE
  LET tk == toks[i]
      err == [ok |-> FALSE, f |-> "", d |-> << >>]
      n == Len(stack)
  IN CASE tk.t = "const" ->
            RpnRun(g, kind, toks, i + 1,
                   Append(stack, [f |-> tk.f, d |-> ConstDen(g, tk.v)]), saved)
       [] tk.t = "var" ->
            RpnRun(g, kind, toks, i + 1,
                   Append(stack, [f |-> IF MV(kind) THEN "v" ELSE "b",
                                  d |-> VarDen(g, tk.u)]), saved)
       [] tk.t = "save" ->
            IF n = 0 THEN err
            ELSE RpnRun(g, kind, toks, i + 1, stack, (tk.n :> stack[n]) @@ saved)
       [] tk.t = "load" ->
            IF tk.n \notin DOMAIN saved THEN err
            ELSE RpnRun(g, kind, toks, i + 1, Append(stack, saved[tk.n]), saved)
       [] OTHER ->
            LET k == Arity(tk.o) IN
            IF n < k THEN err
            ELSE LET as == SubSeq(stack, n - k + 1, n)
                     fs == [j \in 1..k |-> as[j].f]
                     ds == [j \in 1..k |-> as[j].d]
                     r == [f |-> OutForest(tk.o, fs),
                           d |-> Sem(g, kind, tk.o, fs, ds, 0)]
                 IN RpnRun(g, kind, toks, i + 1,
                           Append(SubSeq(stack, 1, n - k), r), saved)
Rpn(g, kind, toks) == RpnRun(g, kind, toks, 1, << >>, << >>)
=============================================================================
