----------------------------- MODULE DDLemmaDot -----------------------------
(***************************************************************************)
(* What the readers of pictures and structure snapshots accept: for every  *)
(* function of a small universe, the canonical diagram drawn as documented *)
(* is accepted by QDot and QSnap, and changing any single label, edge,     *)
(* branch index or node of it is rejected, i.e. the requirements of C19    *)
(* and C20 determine the output.                                           *)
(***************************************************************************)
EXTENDS DDApi

CONSTANTS Ar, Vals, F     \* F: forest "b" | "v" | "z" | "y"

VARIABLES d, NS, ES, SN, SZ
G == FullGeo(Ar)
NV == Len(Ar)
N == ProdTo(Ar, NV)

NullT == <<0, Null(F), << >>>>
RECURSIVE Term(_, _)
Term(f, L) ==
  IF L = 0 THEN <<0, f[1], << >>>>
  ELSE LET u == ord[L].u
           cs == [s \in 1..ord[L].k |-> Term(Cof(geo, f, u, s - 1), L - 1)]
       IN IF ZS(F) THEN (IF \A s \in 2..Len(cs) : cs[s] = NullT THEN cs[1] ELSE <<L, 0, cs>>)
          ELSE IF \A s \in DOMAIN cs : cs[s] = cs[1] THEN cs[1] ELSE <<L, 0, cs>>
RECURSIVE Sub(_)
Sub(t) == {t} \cup UNION { Sub(t[3][s]) : s \in DOMAIN t[3] }
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN << >> ELSE LET t == CHOOSE y \in S : TRUE IN Append(Seq1(S \ {t}), t)

\* the drawn diagram: the empty family and undetermined are left out (unless they are the root)
Hidden(t) == t[1] = 0 /\ (IF F = "z" THEN t[2] = 0 ELSE t[2] = UNDET)
Root == Term(d, NV)
Picture(Terms) ==
  LET Name(t) == CHOOSE j \in DOMAIN Terms : Terms[j] = t IN
  << [j \in DOMAIN Terms |->
        IF Terms[j][1] = 0 THEN <<j, Terms[j][2], 1>> ELSE <<j, ord[Terms[j][1]].nm, 0>>],
     Seq1(UNION { { <<j, Name(Terms[j][3][s]), s - 1>> :
                      s \in { q \in DOMAIN Terms[j][3] : ~Hidden(Terms[j][3][q]) } }
                  : j \in DOMAIN Terms }) >>
Drawn == Picture(TLCEval(Seq1({ t \in Sub(Root) : t = Root \/ ~Hidden(t) })))
Acc(ns, es) == ENABLED QDot(1, ns, es, 0)

DotAccepted == Acc(NS, ES)
DotDetermined ==
  /\ ~ENABLED QDot(1, NS, ES, 1)
  /\ \A j \in DOMAIN NS :
       \* a node drawn twice, a terminal relabelled, a variable renamed
       /\ ~Acc(Append(NS, NS[j]), ES)
       /\ NS[j][3] = 1 => \A v \in Vals \ {NS[j][2]} : ~Acc([NS EXCEPT ![j][2] = v], ES)
       /\ NS[j][3] = 0 => ~Acc([NS EXCEPT ![j][2] = "zz"], ES)
  /\ \A j \in DOMAIN ES :
       \* an edge left out, redirected, or given another branch index
       /\ ~Acc(NS, [i \in 1..(Len(ES) - 1) |-> IF i < j THEN ES[i] ELSE ES[i + 1]])
       /\ \A k \in DOMAIN NS \ {ES[j][2]} : ~Acc(NS, [ES EXCEPT ![j][2] = k])
       /\ \A s \in (0..2) \ {ES[j][3]} : ~Acc(NS, [ES EXCEPT ![j][3] = s])

\* snapshots; id of a term: terminals 0.., inner nodes after them
Structure(All, Reach) ==
  LET Id(t) == IF ZS(F) /\ t = NullT THEN 0 ELSE CHOOSE j \in DOMAIN All : All[j] = t IN
  [j \in DOMAIN Reach |-> <<Id(Reach[j]), Reach[j][1] - 1,
                            [s \in DOMAIN Reach[j][3] |-> Id(Reach[j][3][s])]>>]
Inspected == Structure(TLCEval(Seq1(Sub(Root) \cup (IF ZS(F) THEN {NullT} ELSE {}))), TLCEval(Seq1(Sub(Root))))
InnerSN == { j \in DOMAIN SN : SN[j][2] >= 0 }
Sizes == <<Cardinality(InnerSN), Len(SN) - Cardinality(InnerSN), SumOver([j \in InnerSN |-> Len(SN[j][3])], InnerSN)>>
Init ==
  /\ kind = "" /\ geo = G /\ vid = << >> /\ st = << >> /\ thr = << >> /\ gcd = FALSE
  /\ ord = [L \in 1..NV |-> [nm |-> IF L = 1 THEN "p" ELSE IF L = 2 THEN "q" ELSE "r", u |-> L, k |-> Ar[L]]]
  /\ d \in [1..N -> Vals]
  /\ H = (1 :> [f |-> F, d |-> d, id |-> 0, ch |-> << >>, vs |-> {}])
  /\ LET p == TLCEval(Drawn) IN NS = p[1] /\ ES = p[2]
  /\ SN = Inspected /\ SZ = Sizes
Next == UNCHANGED <<apiVars, d, NS, ES, SN, SZ>>
Spec == Init /\ [][Next]_<<apiVars, d, NS, ES, SN, SZ>>

Snap(ns, sz) == ENABLED QSnap(1, ns, sz, << >>)
SnapAccepted == Snap(SN, SZ)
SnapDetermined ==
  /\ \A c \in 1..3 : \A x \in {-1, 1} : ~Snap(SN, [SZ EXCEPT ![c] = @ + x])
  /\ \A j \in InnerSN :
       /\ ~Snap(Append(SN, [SN[j] EXCEPT ![1] = 999]), << >>)      \* an unshared copy
       /\ ~Snap([SN EXCEPT ![j][3] = [s \in DOMAIN @ |-> IF ZS(F) /\ s > 1 THEN 0 ELSE @[1]]], << >>)
       /\ ~Snap([SN EXCEPT ![j][2] = -1], << >>)
=============================================================================
