----------------------------- MODULE DDLemmaRpn -----------------------------
(***************************************************************************)
(* Reverse-Polish evaluation against two independent definitions:          *)
(*  - an expression tree spelt in postfix order denotes what the tree      *)
(*    denotes (operands in order, shared subexpressions saved and loaded); *)
(*  - a token sequence is accepted iff no prefix lacks operands, saves on  *)
(*    an empty stack or loads an unsaved name, and one value is left.      *)
(***************************************************************************)
EXTENDS DDApi

CONSTANTS MaxLen, Kind

VARIABLES toks, tree

G == FullGeo(<<2, 2>>)
MVK == MV(Kind)
Leaves == { [t |-> "var", u |-> v] : v \in 1..2 } \cup
          { [t |-> "const", f |-> IF MVK THEN "v" ELSE "b", v |-> c] : c \in 0..1 }
OpTok == { [t |-> "op", o |-> o] : o \in (IF MVK THEN {"sub", "lt"} ELSE {"imp", "not", "ite"}) }
Mem == { [t |-> "save", n |-> "p"], [t |-> "load", n |-> "p"], [t |-> "load", n |-> "q"] }
Alphabet == { [t |-> "var", u |-> 1], [t |-> "var", u |-> 2] } \cup OpTok \cup Mem

\* trees: <<leaf>> or <<op, child, ..>>
T0 == { <<x>> : x \in Leaves }
Apply1(o, S) == IF Arity(o.o) = 1 THEN { <<o, a>> : a \in S }
                ELSE IF Arity(o.o) = 2 THEN { <<o, a, b>> : a, b \in S }
                ELSE { <<o, a, b, c>> : a, b, c \in S }
T1 == UNION { Apply1(o, T0) : o \in { x \in OpTok : x.o # "ite" } } \cup
      { <<o, <<[t |-> "var", u |-> 1]>>, b, c>> : o \in { x \in OpTok : x.o = "ite" }, b, c \in T0 }
T2 == { <<o, a, b>> : o \in { x \in OpTok : Arity(x.o) = 2 }, a \in T1, b \in T0 } \cup
      { <<o, b, a>> : o \in { x \in OpTok : Arity(x.o) = 2 }, a \in T1, b \in T0 }
RECURSIVE Post(_)
Post(t) == IF Len(t) = 1 THEN <<t[1]>>
           ELSE LET RECURSIVE Kids(_)
                    Kids(i) == IF i > Len(t) THEN << >> ELSE Post(t[i]) \o Kids(i + 1)
                IN Append(Kids(2), t[1])
RECURSIVE Val(_)
Val(t) ==
  IF Len(t) = 1
  THEN IF t[1].t = "const" THEN [f |-> t[1].f, d |-> ConstDen(geo, t[1].v)]
       ELSE [f |-> IF MVK THEN "v" ELSE "b", d |-> VarDen(geo, t[1].u)]
  ELSE LET k == [i \in 1..(Len(t) - 1) |-> Val(t[i + 1])]
           fs == [i \in DOMAIN k |-> k[i].f]
           ds == [i \in DOMAIN k |-> k[i].d]
       IN [f |-> OutForest(t[1].o, fs), d |-> Sem(geo, Kind, t[1].o, fs, ds, 0)]

Init ==
  /\ kind = Kind /\ geo = G /\ ord = << >> /\ H = << >> /\ vid = << >> /\ st = << >> /\ thr = << >> /\ gcd = FALSE
  /\ \/ tree = << >> /\ toks \in UNION { [1..n -> Alphabet] : n \in 0..MaxLen }
     \/ tree \in T0 \cup T1 \cup T2 /\ toks = Post(tree)
Next == UNCHANGED <<apiVars, toks, tree>>
Spec == Init /\ [][Next]_<<apiVars, toks, tree>>

Spelling ==
  tree # << >> =>
    LET r == Rpn(geo, Kind, toks)
        v == Val(tree)
        \* the same expression with its value saved, and loaded back twice under an operator
        twice == toks \o <<[t |-> "save", n |-> "p"], [t |-> "load", n |-> "p"]>>
    IN /\ r.ok /\ r.f = v.f /\ r.d = v.d
       /\ ~Rpn(geo, Kind, twice).ok
       /\ ~MVK =>
            LET q == Rpn(geo, Kind, Append(twice, [t |-> "op", o |-> "imp"]))
            IN q.ok /\ q.d = Sem(geo, Kind, "imp", <<v.f, v.f>>, <<v.d, v.d>>, 0)

Delta(x) == IF x.t = "save" THEN 0 ELSE IF x.t = "op" THEN 1 - Arity(x.o) ELSE 1
RECURSIVE Height(_)
Height(i) == IF i = 0 THEN 0 ELSE Height(i - 1) + Delta(toks[i])
WellFormed ==
  /\ \A i \in 1..Len(toks) :
       LET x == toks[i] IN
       /\ Height(i - 1) >= (IF x.t = "save" THEN 1 ELSE IF x.t = "op" THEN Arity(x.o) ELSE 0)
       /\ x.t = "load" => \E j \in 1..(i - 1) : toks[j].t = "save" /\ toks[j].n = x.n
  /\ Height(Len(toks)) = 1
Acceptance == Rpn(geo, Kind, toks).ok <=> WellFormed
=============================================================================
