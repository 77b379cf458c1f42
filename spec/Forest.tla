------------------------------- MODULE Forest --------------------------------
(***************************************************************************)
(* A decision-diagram engine as implemented: node store with stable ids,   *)
(* unique table, memoised apply, free list, handles, mark-and-sweep        *)
(* collection.  Checked exhaustively (small constants) against the         *)
(* API-level meaning: each handle carries, in fn, the function it must     *)
(* denote, computed pointwise from the operands.                           *)
(*                                                                         *)
(*   Rule "b": Boolean forest, a node with equal children is redundant     *)
(*   Rule "z": set family, a node whose non-zero branches are empty is     *)
(*   levels 1..NV, arity Ar[l]; terminals 0 and 1                          *)
(*                                                                         *)
(* The computed table is lossy: an arbitrary subset of its entries may be  *)
(* forgotten after any call (module CacheImpl shows the real table is an   *)
(* instance).  Collections happen between public calls only, explicitly or *)
(* automatically; the roots are the ids of the live handles.               *)
(*                                                                         *)
(* Fault seeds a design error, to show that the requirements bite:         *)
(*   "none" | "stale-cache" | "stale-unique" | "lost-child" | "dup-free"   *)
(*   | "leak" | "ite-cond"                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Rule, Ar, Ops, Slots, MaxStore, MaxCalls, Fault, Loss, Auto

NV == Len(Ar)
Lv == 1..NV
Asg == [Lv -> 0..2]
Points == { a \in Asg : \A l \in Lv : a[l] < Ar[l] }
NONE == -1

VARIABLES node,   \* sequence: store position i holds id i+1; [l, c] or FREE
          uniq,   \* unique table: set of <<level, children, id>>
          memo,   \* computed table: set of <<op, f, g, result>>
          ite,    \* table of if-then-else: set of <<f, g, h, result>>
          free,   \* free list (a stack)
          hid,    \* slot -> id held or NONE
          fn,     \* slot -> set of points where the held function is 1
          calls, act
vars == <<node, uniq, memo, ite, free, hid, fn, calls, act>>

FREE == [l |-> 0, c |-> << >>]
Store == [node |-> node, uniq |-> uniq, memo |-> memo, ite |-> ite, free |-> free]
At(S, id) == S.node[id - 1]
Level(S, id) == IF id < 2 THEN 0 ELSE At(S, id).l

(**************************** node construction ****************************)
Redundant(c) == IF Rule = "b" THEN \A i \in DOMAIN c : c[i] = c[1]
                ELSE \A i \in 2..Len(c) : c[i] = 0
Mk(S, l, c) ==
  IF Redundant(c) THEN <<S, c[1]>>
  ELSE LET U == { u \in S.uniq : u[1] = l /\ u[2] = c } IN
       IF U # {} THEN <<S, (CHOOSE u \in U : TRUE)[3]>>
       ELSE LET nd == [l |-> l, c |-> c]
                n == Len(S.free)
            IN IF n > 0
               THEN LET id == S.free[n]
                        fr == IF Fault = "dup-free" /\ n > 1 THEN S.free ELSE SubSeq(S.free, 1, n - 1)
                    IN <<[S EXCEPT !.node[id - 1] = nd, !.free = fr, !.uniq = @ \cup {<<l, c, id>>}], id>>
               ELSE LET id == Len(S.node) + 2
                    IN <<[S EXCEPT !.node = Append(@, nd), !.uniq = @ \cup {<<l, c, id>>}], id>>

\* if-then-else: its own table (operation word "ite", condition folded into the key)
IteTerm(x, y, z) == IF x = 1 THEN y ELSE IF x = 0 THEN z ELSE IF y = z THEN y ELSE NONE

(********************************** apply **********************************)
Term(op, x, y) ==
  CASE op = "and" -> IF x = 0 \/ y = 0 THEN 0 ELSE IF x = 1 THEN y ELSE IF y = 1 THEN x ELSE IF x = y THEN x ELSE NONE
    [] op = "xor" -> IF x = 0 THEN y ELSE IF y = 0 THEN x ELSE IF x = y THEN 0 ELSE NONE
    [] op = "or" -> IF x = 1 \/ y = 1 THEN 1 ELSE IF x = 0 THEN y ELSE IF y = 0 THEN x ELSE IF x = y THEN x ELSE NONE
    [] op = "intersect" -> IF x = 0 \/ y = 0 THEN 0 ELSE IF x = y THEN x ELSE NONE
    [] op = "union" -> IF x = 0 THEN y ELSE IF y = 0 THEN x ELSE IF x = y THEN x ELSE NONE
    [] op = "diff" -> IF x = 0 \/ x = y THEN 0 ELSE IF y = 0 THEN x ELSE NONE
\* the value of the combination at a point
Bit(op, x, y) ==
  CASE op \in {"and", "intersect"} -> x * y
    [] op = "xor" -> (x + y) % 2
    [] op \in {"or", "union"} -> IF x + y > 0 THEN 1 ELSE 0
    [] op = "diff" -> IF x = 1 /\ y = 0 THEN 1 ELSE 0

Cof(S, id, l, k) ==
  IF Level(S, id) = l THEN At(S, id).c
  ELSE [i \in 1..k |-> IF Rule = "z" /\ i > 1 THEN 0 ELSE id]

RECURSIVE Apply(_, _, _, _), Kids(_, _, _, _, _, _)
Kids(S, op, a, b, i, acc) ==
  IF i > Len(a) THEN <<S, acc>>
  ELSE LET r == Apply(S, op, a[i], b[i]) IN Kids(r[1], op, a, b, i + 1, Append(acc, r[2]))
Apply(S, op, x, y) ==
  LET t == Term(op, x, y) IN
  IF t # NONE THEN <<S, t>>
  ELSE LET M == { m \in S.memo : m[1] = op /\ m[2] = x /\ m[3] = y } IN
       IF M # {} THEN <<S, (CHOOSE m \in M : TRUE)[4]>>
       ELSE LET lx == Level(S, x)
                ly == Level(S, y)
                l == IF lx > ly THEN lx ELSE ly
                k == Ar[l]
                kids == Kids(S, op, Cof(S, x, l, k), Cof(S, y, l, k), 1, << >>)
                r == Mk(kids[1], l, kids[2])
            IN <<[r[1] EXCEPT !.memo = { m \in @ : ~(m[1] = op /\ m[2] = x /\ m[3] = y) } \cup {<<op, x, y, r[2]>>}], r[2]>>

RECURSIVE Ite(_, _, _, _), Kids3(_, _, _, _, _, _)
Kids3(S, a, b, c, i, acc) ==
  IF i > Len(a) THEN <<S, acc>>
  ELSE LET r == Ite(S, a[i], b[i], c[i]) IN Kids3(r[1], a, b, c, i + 1, Append(acc, r[2]))
Ite(S, x, y, z) ==
  LET t == IteTerm(x, y, z) IN
  IF t # NONE THEN <<S, t>>
  ELSE LET M == { m \in S.ite : m[1] = x /\ m[2] = y /\ m[3] = z } IN
       IF M # {} THEN <<S, (CHOOSE m \in M : TRUE)[4]>>
       ELSE LET T == { Level(S, x), Level(S, y), Level(S, z) }
                l == CHOOSE m \in T : \A q \in T : q <= m
                k == Ar[l]
                kids == Kids3(S, Cof(S, x, l, k), Cof(S, y, l, k), Cof(S, z, l, k), 1, << >>)
                r == Mk(kids[1], l, kids[2])
            IN <<[r[1] EXCEPT !.ite = @ \cup {<<x, y, z, r[2]>>}], r[2]>>

(******************************** collection *******************************)
RECURSIVE Mark(_, _, _)
Mark(S, todo, live) ==
  IF todo = {} THEN live
  ELSE LET id == CHOOSE i \in todo : TRUE
           c == IF id < 2 THEN << >> ELSE At(S, id).c
           ks == { c[i] : i \in IF Fault = "lost-child" THEN 1..(Len(c) - 1) ELSE DOMAIN c }
           l2 == live \cup {id}
       IN Mark(S, (todo \cup ks) \ l2, l2)
RECURSIVE DeadSeq(_, _, _)
DeadSeq(n, live, i) == IF i > n THEN << >>
                       ELSE (IF i \in live THEN << >> ELSE <<i>>) \o DeadSeq(n, live, i + 1)
Collect(S, roots) ==
  LET live == Mark(S, roots \cup {0, 1}, {})
      top == Len(S.node) + 1
      dead == DeadSeq(top, live, 2)
  IN [node |-> [i \in 1..Len(S.node) |-> IF i + 1 \in live THEN S.node[i] ELSE FREE],
      uniq |-> IF Fault = "stale-unique" THEN S.uniq ELSE { u \in S.uniq : u[3] \in live },
      memo |-> IF Fault = "stale-cache" THEN S.memo
               ELSE { m \in S.memo : m[2] \in live /\ m[3] \in live /\ m[4] \in live },
      ite |-> { m \in S.ite : (Fault = "ite-cond" \/ m[1] \in live) /\ m[2] \in live /\ m[3] \in live /\ m[4] \in live },
      free |-> IF Fault = "leak" /\ Len(dead) > 1 THEN Tail(dead) ELSE dead]

Roots(H) == { H[s] : s \in { x \in Slots : H[x] # NONE } }

(********************************** calls **********************************)
Init ==
  /\ node = << >> /\ uniq = {} /\ memo = {} /\ ite = {} /\ free = << >>
  /\ hid = [s \in Slots |-> NONE] /\ fn = [s \in Slots |-> {}] /\ calls = 0 /\ act = <<"init">>

Put(S) == node' = S.node /\ uniq' = S.uniq /\ memo' = S.memo /\ ite' = S.ite /\ free' = S.free
Tick(a) == calls < MaxCalls /\ calls' = calls + 1 /\ act' = a
\* a call may end with an automatic collection, its result being a root already
After(S, H) == Put(S) \/ (Auto /\ hid' = H /\ Put(Collect(S, Roots(H))))
Lossy(S) == IF Loss THEN { [S EXCEPT !.memo = M] : M \in { {}, S.memo } \cup { S.memo \ {m} : m \in S.memo } } ELSE {S}

VarPoints(l, i) == IF Rule = "b" THEN { a \in Points : a[l] = i }
                   ELSE { a \in Points : a[l] = i /\ \A m \in Lv \ {l} : a[m] = 0 }
\* the function "variable l is in state i" (the set {l=i})
MkVar(s, l, i) ==
  /\ Tick(<<"var", s, l, i>>) /\ hid[s] = NONE
  /\ LET r == Mk(Store, l, [j \in 1..Ar[l] |-> IF j = i + 1 THEN 1 ELSE 0]) IN
     /\ hid' = [hid EXCEPT ![s] = r[2]] /\ fn' = [fn EXCEPT ![s] = VarPoints(l, i)]
     /\ After(r[1], hid')

MkConst(s, b) ==
  /\ Tick(<<"const", s, b>>) /\ hid[s] = NONE
  /\ hid' = [hid EXCEPT ![s] = b]
  /\ fn' = [fn EXCEPT ![s] = IF b = 0 THEN {} ELSE IF Rule = "b" THEN Points ELSE { [l \in Lv |-> 0] }]
  /\ UNCHANGED <<node, uniq, memo, ite, free>>

Do(s, op, x, y) ==
  /\ Tick(<<op, s, x, y>>) /\ hid[s] = NONE /\ hid[x] # NONE /\ hid[y] # NONE
  /\ LET r == Apply(Store, op, hid[x], hid[y]) IN
     /\ hid' = [hid EXCEPT ![s] = r[2]]
     /\ fn' = [fn EXCEPT ![s] = { a \in Points : Bit(op, IF a \in fn[x] THEN 1 ELSE 0,
                                                         IF a \in fn[y] THEN 1 ELSE 0) = 1 }]
     /\ \E S \in Lossy(r[1]) : After(S, hid')

DoIte(s, x, y, z) ==
  /\ Tick(<<"ite", s, x, y, z>>) /\ hid[s] = NONE /\ NONE \notin {hid[x], hid[y], hid[z]}
  /\ LET r == Ite(Store, hid[x], hid[y], hid[z]) IN
     /\ hid' = [hid EXCEPT ![s] = r[2]]
     /\ fn' = [fn EXCEPT ![s] = (fn[x] \cap fn[y]) \cup (fn[z] \ fn[x])]
     /\ \E S \in (IF Loss THEN {r[1], [r[1] EXCEPT !.ite = {}]} ELSE {r[1]}) : After(S, hid')

Drop(s) ==
  /\ hid[s] # NONE /\ hid' = [hid EXCEPT ![s] = NONE] /\ fn' = [fn EXCEPT ![s] = {}]
  /\ act' = <<"drop", s>> /\ UNCHANGED <<node, uniq, memo, ite, free, calls>>

Gc ==
  /\ Tick(<<"gc">>) /\ Put(Collect(Store, Roots(hid))) /\ UNCHANGED <<hid, fn>>
ClearCache ==
  /\ Tick(<<"clear">>) /\ memo' = {} /\ ite' = {} /\ UNCHANGED <<node, uniq, free, hid, fn>>

Next == \/ "const" \in Ops /\ \E s \in Slots, b \in 0..1 : MkConst(s, b)
        \/ \E s \in Slots, l \in Lv : \E i \in 1..(Ar[l] - 1) : MkVar(s, l, i)
        \/ \E s, x, y \in Slots, op \in Ops \ {"ite", "const"} : Do(s, op, x, y)
        \/ "ite" \in Ops /\ \E s, x, y, z \in Slots : DoIte(s, x, y, z)
        \/ \E s \in Slots : Drop(s)
        \/ Gc \/ (memo \cup ite # {} /\ ClearCache)
Spec == Init /\ [][Next]_vars

(******************************* requirements ******************************)
RECURSIVE Eval(_, _, _)
\* value at a point, walking down all levels (a skipped level of a set family needs state 0)
Eval(id, a, l) ==
  IF l = 0 THEN id
  ELSE IF Level(Store, id) = l THEN Eval(At(Store, id).c[a[l] + 1], a, l - 1)
  ELSE IF Rule = "z" /\ a[l] # 0 THEN 0 ELSE Eval(id, a, l - 1)
Den(id) == { a \in Points : Eval(id, a, NV) = 1 }

Held == { s \in Slots : hid[s] # NONE }
Reach == Mark(Store, Roots(hid) \cup {0, 1}, {})
Used == { i + 1 : i \in { j \in DOMAIN node : node[j] # FREE } }
OnFree == { free[i] : i \in DOMAIN free }

\* C03: a live handle denotes its function, whatever was collected or reused
Meaning == \A s \in Held : Den(hid[s]) = fn[s]
\* C02: same function iff same id
Canon == \A s, t \in Held : (fn[s] = fn[t]) <=> (hid[s] = hid[t])
\* C20: ordered, reduced, shared
Shape == /\ \A id \in Reach \ {0, 1} : /\ node[id - 1] # FREE /\ ~Redundant(node[id - 1].c)
                                       /\ \A i \in DOMAIN node[id - 1].c : Level(Store, node[id - 1].c[i]) < node[id - 1].l
         /\ \A x, y \in Used : node[x - 1] = node[y - 1] => x = y
\* C04: every slot is in use or on the free list, once; after a collection exactly the reachable are in use
Slots1 == /\ Used \cap OnFree = {} /\ Used \cup OnFree = 2..(Len(node) + 1) /\ Cardinality(OnFree) = Len(free)
Reclaimed == act = <<"gc">> => Used = Reach \ {0, 1}
\* C17: what the tables answer is true now
Tables == /\ uniq = { <<node[i - 1].l, node[i - 1].c, i>> : i \in Used }
          /\ \A m \in memo : /\ {m[2], m[3], m[4]} \subseteq Used \cup {0, 1}
                             /\ Den(m[4]) = { a \in Points : Bit(m[1], IF a \in Den(m[2]) THEN 1 ELSE 0,
                                                                       IF a \in Den(m[3]) THEN 1 ELSE 0) = 1 }
IteTable == \A m \in ite : /\ {m[1], m[2], m[3], m[4]} \subseteq Used \cup {0, 1}
                           /\ Den(m[4]) = (Den(m[1]) \cap Den(m[2])) \cup (Den(m[3]) \ Den(m[1]))
Bounded == Len(node) <= MaxStore
TypeOK == /\ \A s \in Slots : hid[s] \in {NONE} \cup 0..(Len(node) + 1)
\* ids of surviving diagrams never change: a live handle keeps its id and its diagram
Stable == [][\A s \in Held : hid'[s] = hid[s] => /\ fn'[s] = fn[s]
                /\ \A id \in Mark(Store, {hid[s]}, {}) \ {0, 1} : node'[id - 1] = node[id - 1]]_vars
View == <<node, uniq, memo, ite, free, hid, fn, calls, act = <<"gc">> >>
=============================================================================
