------------------------------- MODULE DDLemma -------------------------------
(***************************************************************************)
(* The specification checked against itself.  DDSem states some notions in *)
(* a form TLC can evaluate on every event of a trace (immediate neighbours *)
(* instead of all smaller vectors, one representative per assignment, sums *)
(* over classes of a weighted sum, ...).  Here each is compared with its   *)
(* textbook definition on every function d (and every pair d, e) of a      *)
(* small universe.                                                         *)
(***************************************************************************)
EXTENDS DDApi

CONSTANTS Ar,      \* numbers of states
          Vals,    \* values of the functions (UNDET may be one of them)
          MonoOnly,\* only monotone functions
          Pairs    \* also a second function

VARIABLES d, e
lvars == <<d, e>>

G == FullGeo(Ar)
N == ProdTo(Ar, Len(Ar))
NV == Len(Ar)
Funs == [1..N -> Vals]

Init ==
  /\ kind = "" /\ geo = G /\ H = << >> /\ vid = << >> /\ st = << >> /\ thr = << >> /\ gcd = FALSE
  \* every order of the variables occurs
  /\ ord \in { [L \in 1..NV |-> [nm |-> "x", u |-> p[L], k |-> Ar[p[L]]]] : p \in Permutations(1..NV) }
  /\ MonoOnly => ord = [L \in 1..NV |-> [nm |-> "x", u |-> L, k |-> Ar[L]]]
  /\ d \in Funs
  /\ MonoOnly => Monotone(geo, d)
  /\ IF Pairs THEN e \in Funs /\ ord = [L \in 1..NV |-> [nm |-> "x", u |-> L, k |-> Ar[L]]]
     ELSE e = d
Next == UNCHANGED <<apiVars, lvars>>
Spec == Init /\ [][Next]_<<apiVars, lvars>>

IsBool == Vals \subseteq {0, 1}
Binary == \A v \in Vars(geo) : geo.ar[v] = 2
Total == UNDET \notin Vals

(***************************** monotone, extreme ***************************)
MonotoneIsMonotone ==
  Total => (Monotone(geo, d) <=> \A i, j \in Pts(geo) : Leq(geo, i, j) => d[i] <= d[j])
DigitsNumber ==
  \A i \in Pts(geo) : i = 1 + ESum(geo, geo.dg[i], Len(geo.ar))
MinimalSets ==
  (IsBool /\ Binary /\ Monotone(geo, d)) =>
    /\ Family(geo, MinPathDen(geo, d)) = MinPathDef(geo, d)
    /\ Family(geo, MinCutDen(geo, d)) = MinCutDef(geo, d)
    /\ MinCutDen(geo, d) = MinPathDen(geo, DualDen(geo, d))
    \* the minimal paths determine the function, and so do the minimal cuts
    /\ \A i \in Pts(geo) : (d[i] = 1) <=> \E s \in MinPathDef(geo, d) : s \subseteq SetAt(geo, i)
    /\ \A i \in Pts(geo) : (d[i] = 0) <=> \E s \in MinCutDef(geo, d) : s \cap SetAt(geo, i) = {}
MinimalVectors ==
  (Total /\ Monotone(geo, d)) =>
    \A v \in Vals :
      LET S == { i \in Pts(geo) : d[i] = v } IN
      /\ { i \in Pts(geo) : MinVecDen(geo, d)[i] = v } = MinAmong(geo, S)
      /\ { geo.n + 1 - i : i \in { j \in Pts(geo) : MaxVecDen(geo, d)[j] = v } } = MaxAmong(geo, S)
\* the level query: minimal vectors with performance at least v, maximal ones with at most v
LevelQuery ==
  (Total /\ Monotone(geo, d)) =>
    \A v \in Vals :
      /\ LevelVecs(geo, MinVecDen(geo, d), v, FALSE, Vars(geo)) =
           { geo.dg[i] : i \in MinAmong(geo, { j \in Pts(geo) : d[j] >= v }) }
      /\ LevelVecs(geo, MaxVecDen(geo, d), v, TRUE, Vars(geo)) =
           { geo.dg[i] : i \in MaxAmong(geo, { j \in Pts(geo) : d[j] <= v }) }

(************************ counting and enumeration *************************)
\* the diagram itself: a term per subfunction
RECURSIVE Term(_, _)
Term(f, L) ==
  IF L = 0 THEN <<0, f[1], << >>>>
  ELSE LET u == ord[L].u
           cs == [s \in 1..ord[L].k |-> Term(Cof(geo, f, u, s - 1), L - 1)]
       IN IF \A s \in DOMAIN cs : cs[s] = cs[1] THEN cs[1] ELSE <<L, 0, cs>>
RECURSIVE ZTerm(_, _, _)
ZTerm(f, L, null) ==
  IF L = 0 THEN <<0, f[1], << >>>>
  ELSE LET u == ord[L].u
           cs == [s \in 1..ord[L].k |-> ZTerm(Cof(geo, f, u, s - 1), L - 1, null)]
       IN IF \A s \in 2..Len(cs) : cs[s] = <<0, null, << >>>> THEN cs[1] ELSE <<L, 0, cs>>
RECURSIVE Inner(_)
Inner(t) == IF t[1] = 0 THEN {} ELSE {t} \cup UNION { Inner(t[3][s]) : s \in DOMAIN t[3] }

CanonicalSize ==
  /\ NodeCount(geo, {d}, ord, "v") = Cardinality(Inner(Term(d, NV)))
  /\ NodeCount(geo, {d, e}, ord, "v") = Cardinality(Inner(Term(d, NV)) \cup Inner(Term(e, NV)))
  /\ NodeCount(geo, {d, e}, ord, "y") =
       Cardinality(Inner(ZTerm(d, NV, UNDET)) \cup Inner(ZTerm(e, NV, UNDET)))
  /\ IsBool => NodeCount(geo, {d, e}, ord, "z") =
       Cardinality(Inner(ZTerm(d, NV, 0)) \cup Inner(ZTerm(e, NV, 0)))
RootIsRoot ==
  /\ RootLevel("v", d) = Term(d, NV)[1]
  /\ RootLevel("y", d) = ZTerm(d, NV, UNDET)[1]
  /\ IsBool => RootLevel("z", d) = ZTerm(d, NV, 0)[1]
  /\ TopLevel(geo, d, ord) = Term(d, NV)[1]
\* a root rebuilt from its children is the root
NodeRebuild ==
  LET L == RootLevel("v", d)
      Z == RootLevel("y", d)
  IN /\ L > 0 => MkNode(geo, "v", ord[L].u, [s \in 1..ord[L].k |-> Cof(geo, d, ord[L].u, s - 1)]) = d
     /\ Z > 0 =>
          LET u == ord[Z].u
              child(s) == [i \in Pts(geo) |-> IF geo.dg[i][u] = 0 THEN d[i + s * geo.str[u]] ELSE UNDET]
          IN MkNode(geo, "y", u, [s \in 1..ord[Z].k |-> child(s - 1)]) = d

\* counting as the level-gap recursion over the diagram
RECURSIVE GapCount(_, _, _)
GapCount(t, L, sel) ==
  IF L = 0 THEN B(t[2] \in sel)
  ELSE IF t[1] < L THEN ord[L].k * GapCount(t, L - 1, sel)
  ELSE SumTo(LAMBDA s : GapCount(t[3][s + 1], L - 1, sel), Len(t[3]) - 1, 1000003)
Counting ==
  \A sel \in SUBSET Vals :
    /\ Count(geo, d, ord, sel, 0) = Cardinality(Listed(geo, d, ord, sel))
    /\ Count(geo, d, ord, sel, 0) = GapCount(Term(d, NV), TopLevel(geo, d, ord), sel)
\* every point at which d takes a selected value extends exactly one listed vector
ListedCovers ==
  \A sel \in SUBSET Vals :
    TopLevel(geo, d, ord) > 0 =>
    \A i \in Pts(geo) :
      Cardinality({ x \in Listed(geo, d, ord, sel) :
          \A v \in Vars(geo) : x[v] = -1 \/ x[v] = geo.dg[i][v] }) = B(d[i] \in sel)

(******************************* probability *******************************)
W == [v \in Vars(geo) |-> [s \in 1..geo.ar[v] |-> v + 2 * s]]
RECURSIVE ProbTerm(_, _, _)
ProbTerm(t, L, sel) ==
  IF L = 0 THEN B(t[2] # UNDET /\ t[2] \in sel)
  ELSE LET u == ord[L].u IN
       SumTo(LAMBDA s : (W[u][s + 1] * ProbTerm(IF t[1] < L THEN t ELSE t[3][s + 1], L - 1, sel)),
             ord[L].k - 1, 1000003)
Probability ==
  \A sel \in SUBSET Vals : Prob(geo, d, W, sel, 1000003) = ProbTerm(Term(d, NV), NV, sel)
\* conditioning: total probability, and the difference of the two cofactors
Importance ==
  \A sel \in SUBSET Vals : \A x \in Vars(geo) :
    /\ Prob(geo, d, W, sel, 0) = SumTo(LAMBDA s : W[x][s + 1] * CondProb(geo, d, W, sel, x, s, 0),
                                       geo.ar[x] - 1, 1000000007)
    /\ \A s \in 1..(geo.ar[x] - 1) :
         LET Unit(r) == [W EXCEPT ![x] = [q \in 1..geo.ar[x] |-> B(q = r + 1)]]
         IN Birnbaum(geo, d, W, sel, x, s, 0) =
              Prob(geo, d, Unit(s), sel, 0) - Prob(geo, d, Unit(s - 1), sel, 0)

(**************************** algebra on pairs *****************************)
S2(op) == Sem(geo, "bdd", op, <<"b", "b">>, <<d, e>>, 0)
S3(a, b, c) == Sem(geo, "bdd", "ite", <<"b", "b", "b">>, <<a, b, c>>, 0)
Not(f) == Map1(geo, Not1, f)
BooleanAlgebra ==
  IsBool =>
    /\ S2("nand") = Not(S2("and")) /\ S2("nor") = Not(S2("or")) /\ S2("xnor") = Not(S2("xor"))
    /\ S2("or") = Not(Sem(geo, "bdd", "and", <<"b", "b">>, <<Not(d), Not(e)>>, 0))
    /\ S2("imp") = S3(d, e, ConstDen(geo, 1))
    /\ S2("xor") = S3(d, Not(e), e)
    /\ KofN(geo, 1, <<d, e>>) = S2("or") /\ KofN(geo, 2, <<d, e>>) = S2("and")
    /\ KofN(geo, 0, <<d, e>>) = ConstDen(geo, 1) /\ KofN(geo, 3, <<d, e>>) = ConstDen(geo, 0)
    /\ DualDen(geo, S2("and")) = Map2(geo, Or2, DualDen(geo, d), DualDen(geo, e))
    /\ DualDen(geo, DualDen(geo, d)) = d
    /\ Sem(geo, "bdd", "andn", <<"b", "b">>, <<d, e>>, 0) = S2("and")
    /\ Sem(geo, "bdd", "orn", <<"b", "b">>, <<d, e>>, 0) = S2("or")
    /\ \A v \in Vars(geo) :   \* Shannon
         S3([i \in Pts(geo) |-> B(geo.dg[i][v] = 1)], Cof(geo, d, v, 1), Cof(geo, d, v, 0)) = d
           \/ geo.ar[v] > 2
Z2(op) == Sem(geo, "zdd", op, <<"z", "z">>, <<d, e>>, 0)
FamilyAlgebra ==
  (IsBool /\ Binary) =>
    LET F == Family(geo, d)
        K == Family(geo, e)
        Q == Family(geo, Z2("divide"))
    IN /\ CharDen(geo, F) = d
       /\ Family(geo, Z2("union")) = F \cup K
       /\ Family(geo, Z2("intersect")) = F \cap K
       /\ Family(geo, Z2("setdiff")) = F \ K
       /\ Family(geo, Z2("product")) = { s \cup t : s \in F, t \in K }
       /\ K # {} =>
            \* the quotient: the sets disjoint from the divisor's whose union with each is in F
            /\ \A s \in Q, t \in K : s \cap t = {} /\ s \cup t \in F
            /\ \A s \in SUBSET Vars(geo) :
                 (\A t \in K : s \cap t = {} /\ s \cup t \in F) => s \in Q
            /\ Product(Q, K) \subseteq F
       /\ K = {{}} => Q = F
Y2(op) == Sem(geo, "zmdd", op, <<"y", "y">>, <<d, e>>, 0)
Lab(f, v) == { i \in Pts(geo) : f[i] = v }
VectorAlgebra ==
  \A v \in Vals \ {UNDET} :
    /\ Lab(Y2("yintersect"), v) = Lab(d, v) \cap Lab(e, v)
    /\ Lab(Y2("ysetdiff"), v) = Lab(d, v) \ Lab(e, v)
V2(op) == Sem(geo, "mtmdd", op, <<"v", "v">>, <<d, e>>, 0)
ValueAlgebra ==
  \A i \in Pts(geo) :
    LET x == d[i]
        y == e[i]
        und == x = UNDET \/ y = UNDET
    IN /\ \A op \in ArithOps : und => V2(op)[i] = UNDET
       /\ (~und /\ y # 0) =>
            LET q == V2("div")[i]
                r == V2("rem")[i]
            IN /\ x = q * y + r
               /\ Abs(r) < Abs(y)
               /\ r = 0 \/ ((r < 0) = (x < 0))
       /\ (~und /\ y = 0) => V2("div")[i] = UNDET /\ V2("rem")[i] = UNDET
       /\ ~und => /\ V2("min")[i] + V2("max")[i] = x + y
                  /\ V2("min")[i] <= V2("max")[i]
                  /\ V2("sub")[i] + y = x
       /\ Sem(geo, "mtmdd", "replace", <<"v", "v">>, <<d, e>>, 0)[i] = (IF x = UNDET THEN y ELSE x)
       /\ ~und => /\ (V2("lte")[i] = 1) = ((V2("lt")[i] = 1) \/ (V2("eq")[i] = 1))
                  /\ V2("gte")[i] = 1 - V2("lt")[i] /\ V2("neq")[i] = 1 - V2("eq")[i]
                  /\ LET c == V2("lt")
                         n == Sem(geo, "mtmdd2", "not", <<"b">>, <<c>>, 0)
                         If(b, v) == Sem(geo, "mtmdd2", "vif", <<"b", "v">>, <<b, v>>, 0)
                         r == Sem(geo, "mtmdd2", "replace", <<"v", "v">>, <<If(c, d), If(n, e)>>, 0)
                     IN r[i] = V2("min")[i] /\ Fits(Sem(geo, "mtmdd2", "ite", <<"b", "v", "v">>, <<c, d, e>>, 0)[i], r[i])
=============================================================================
