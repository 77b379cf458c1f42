------------------------------ MODULE CacheImpl ------------------------------
(***************************************************************************)
(* The computed table as implemented: a power-of-two array of slots,       *)
(* direct-mapped by a hash, overwritten on collision, doubled before a     *)
(* store that finds it at least 3/4 full.  Checked exhaustively for every  *)
(* hash function on the keys: the requirements of module Cache hold.       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Ids, Ops, InitBits, MaxBits

Pow(b) == IF b = 0 THEN 1 ELSE IF b = 1 THEN 2 ELSE IF b = 2 THEN 4 ELSE 8
Key == Ops \X Ids
NONE == -1

VARIABLES hash, bits, slot, len,
          tab,      \* what was stored last and not invalidated since: key -> value or NONE
          here      \* the keys that must be found (certain content)
vars == <<hash, bits, slot, len, tab, here>>

Idx(k, b) == hash[k] % Pow(b)
EmptySlot == [k |-> <<NONE, NONE>>, v |-> NONE]
Get(k) == LET s == slot[Idx(k, bits)] IN IF s.v # NONE /\ s.k = k THEN s.v ELSE NONE
Content == { k \in Key : Get(k) # NONE }

Init ==
  /\ hash \in [Key -> 0..(Pow(MaxBits) - 1)]
  /\ bits = InitBits /\ slot = [i \in 0..(Pow(InitBits) - 1) |-> EmptySlot] /\ len = 0
  /\ tab = [k \in Key |-> NONE] /\ here = {}

Grown(b) ==
  [i \in 0..(Pow(b) - 1) |->
     LET S == { j \in DOMAIN slot : slot[j].v # NONE /\ Idx(slot[j].k, b) = i }
     IN IF S = {} THEN EmptySlot ELSE slot[CHOOSE j \in S : TRUE]]

Put(k, v) ==
  LET grow == len * 4 >= Pow(bits) * 3 /\ bits < MaxBits
      b == IF grow THEN bits + 1 ELSE bits
      s0 == IF grow THEN Grown(b) ELSE slot
      i == Idx(k, b)
  IN /\ bits' = b
     /\ slot' = [s0 EXCEPT ![i] = [k |-> k, v |-> v]]
     /\ len' = Cardinality({ j \in DOMAIN s0 : s0[j].v # NONE }) + (IF s0[i].v = NONE THEN 1 ELSE 0)
     /\ tab' = [tab EXCEPT ![k] = v]
     /\ here' = (here \ { q \in here : q # k /\ Idx(q, b) = i }) \cup {k}
     /\ UNCHANGED hash

Retain(live) ==
  /\ slot' = [i \in DOMAIN slot |->
                IF slot[i].v # NONE /\ ~(slot[i].k[2] \in live /\ slot[i].v \in live)
                THEN EmptySlot ELSE slot[i]]
  /\ len' = Cardinality({ j \in DOMAIN slot' : slot'[j].v # NONE })
  /\ tab' = [k \in Key |-> IF tab[k] # NONE /\ ~(k[2] \in live /\ tab[k] \in live) THEN NONE ELSE tab[k]]
  /\ here' = { k \in here : tab'[k] # NONE }
  /\ UNCHANGED <<hash, bits>>

Clear ==
  /\ slot' = [i \in DOMAIN slot |-> EmptySlot] /\ len' = 0
  /\ tab' = [k \in Key |-> NONE] /\ here' = {}
  /\ UNCHANGED <<hash, bits>>

Next == \/ \E k \in Key, v \in Ids : Put(k, v)
        \/ \E live \in SUBSET Ids : live # Ids /\ Retain(live)
        \/ Clear
Spec == Init /\ [][Next]_vars

\* a lookup finds nothing or the value stored last; what must be found is; the length is right
Sound == \A k \in Key : Get(k) # NONE => Get(k) = tab[k]
Complete == Content = here
Length == len = Cardinality(Content)
\* one store displaces at most one entry, and growing none
StepOK == [][ /\ Cardinality(Content \ Content') <= 1 \/ \E live \in SUBSET Ids : Retain(live) \/ Clear
              /\ (bits' # bits) => Cardinality(Content \ Content') <= 1 ]_vars
=============================================================================
