-------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* The computed table (C17), abstractly: a lossy map.  A store may displace*)
(* at most one other entry; nothing else removes an entry except the       *)
(* selective invalidation and the clear, and no call ever changes one.     *)
(* This module validates traces recorded from common::ComputeCache.        *)
(*                                                                         *)
(*   Keys are numbered 0..B^3-1; key i has the words Id(digit) of i in     *)
(*   base B; the value stored in generation g for key i is Id(Val(i, g)).  *)
(*   tab[i + 1]  generation stored for key i, 0 if none                    *)
(*   ids         how digits are numbered: <<a, c>>                         *)
(*   cert        the entries of tab are certainly all still there          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Focus, Verbose
VARIABLES tab, cert, len, ids, l
cacheVars == <<tab, cert, len, ids>>

B == 40
K == B * B * B
Id(x) == IF ids[1] = 0 THEN (x % 8) * 3 + (x \div 8) * 65536 ELSE (ids[1] * x + ids[2]) % 262139
Dig(i, c) == IF c = 2 THEN i % B ELSE IF c = 1 THEN (i \div B) % B ELSE i \div (B * B)
Val(i, g) == (i * 7 + g * 3) % B
Keys == 0..(K - 1)
Present(t) == { i \in Keys : t[i + 1] # 0 }

Req(cond, what, info) ==
  IF "C17" \notin Focus \/ cond THEN TRUE
  ELSE IF Verbose THEN PrintT(<<"MISMATCH", {"C17"}, what, info>>) /\ FALSE ELSE FALSE

Empty == [j \in 1..K |-> 0]

New(a, c, n, e) ==
  /\ Req(n = 0 /\ e = 1, "a new table is empty", <<n, e>>)
  /\ tab' = Empty /\ cert' = TRUE /\ len' = n /\ ids' = <<a, c>>

\* the keys lo, lo+st, ... below hi stored in generation g; dmin, dmax: extreme changes of the
\* reported length by one store; d2min, d2max: by storing the key just stored once more, which may make
\* the table grow
Put(lo, hi, st, g, dmin, dmax, d2min, d2max, n) ==
  LET InB(i) == i >= lo /\ i < hi /\ (i - lo) % st = 0
      known == \A i \in Keys : InB(i) => tab[i + 1] # 0
  IN /\ Req(d2min = 0 /\ d2max = 0, "storing an entry that is there changes the length", <<d2min, d2max>>)
     /\ Req(dmin >= 0 /\ dmax <= 1, "one store changes the length by 0 or 1", <<dmin, dmax>>)
     /\ Req((cert /\ known) => n = len, "overwriting entries changes the length", <<len, n>>)
     /\ tab' = TLCEval([j \in 1..K |-> IF InB(j - 1) THEN g ELSE tab[j]])
     /\ cert' = (cert /\ known)
     /\ len' = n /\ ids' = ids

\* lookup of every key: got[i + 1] = the value found for key i, -1 if none
Audit(got, n, e) ==
  LET Bad(i) == got[i + 1] # -1 /\
                (tab[i + 1] = 0 \/ got[i + 1] # Id(Val(i, tab[i + 1])))
      c == Cardinality({ i \in Keys : got[i + 1] # -1 }) IN
  /\ Req(\A i \in Keys : ~Bad(i), "an entry never stored, invalidated or not the last one stored",
         { <<i, tab[i + 1], got[i + 1]>> : i \in { x \in Keys : Bad(x) } })
  /\ Req(c = n, "length", <<c, n>>)
  /\ Req((e = 1) = (n = 0), "emptiness", <<n, e>>)
  /\ Req(n = len, "lookups change nothing", <<n, len>>)
  /\ Req(cert => \A i \in Keys : (got[i + 1] = -1) = (tab[i + 1] = 0), "an entry was lost", <<n>>)
  /\ tab' = TLCEval([j \in 1..K |-> IF got[j] # -1 THEN tab[j] ELSE 0])
  /\ cert' = TRUE /\ len' = n /\ ids' = ids

\* dead: digits whose id is dead; three: the first key word is an id as well
Retain(dead, three, n) ==
  LET D == { dead[j] : j \in DOMAIN dead }
      Gone(i) == \/ Dig(i, 1) \in D \/ Dig(i, 2) \in D \/ (three /\ Dig(i, 0) \in D)
                 \/ Val(i, tab[i + 1]) \in D
      t == TLCEval([j \in 1..K |-> IF tab[j] # 0 /\ Gone(j - 1) THEN 0 ELSE tab[j]])
  IN /\ tab' = t
     /\ Req(cert => n = Cardinality(Present(t)), "length after an invalidation", <<n>>)
     /\ cert' = cert /\ len' = n /\ ids' = ids

Clear(n, e) ==
  /\ Req(n = 0 /\ e = 1, "a cleared table is empty", <<n, e>>)
  /\ tab' = Empty /\ cert' = TRUE /\ len' = n /\ ids' = ids

(* A session on a table of its own, of explicit steps: <<0, k0, k1, k2, v>> a store, <<1, k0, k1, k2, r>>
   a lookup that found r (-1: nothing), <<2, d, t, 0, n>> an invalidation of the entries that mention id d
   (t = 1: the first key word is an id as well) after which the table reports n entries. *)
Burst(s) ==
  LET Key(j) == <<s[j][2], s[j][3], s[j][4]>>
      \* the last step before j that decides the entry of j's key: its store, or an invalidation of it
      Stores(j) == { i \in 1..(j - 1) : s[i][1] = 0 /\ Key(i) = Key(j) }
      Last(j) == CHOOSE i \in Stores(j) : \A x \in Stores(j) : x <= i
      Kills(i, c) == LET d == s[c][2] IN d \in {s[i][3], s[i][4], s[i][5]} \/ (s[c][3] = 1 /\ d = s[i][2])
      Alive(i, j) == ~\E c \in (i + 1)..(j - 1) : s[c][1] = 2 /\ Kills(i, c)
      Good(j) == s[j][1] # 1 \/ s[j][5] = -1
                 \/ (Stores(j) # {} /\ s[j][5] = s[Last(j)][5] /\ Alive(Last(j), j))
      Kept(j) == (j > 1 /\ s[j][1] = 1 /\ s[j - 1][1] = 0 /\ Key(j) = Key(j - 1)) => s[j][5] # -1
  IN /\ Req(\A j \in DOMAIN s : Good(j), "a lookup found what was not the last thing stored under its key",
            { s[j] : j \in { x \in DOMAIN s : ~Good(x) } })
     /\ Req(\A j \in DOMAIN s : Kept(j), "an entry is gone right after it was stored",
            { s[j] : j \in { x \in DOMAIN s : ~Kept(x) } })
     /\ UNCHANGED cacheVars

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)
TraceInit == l = 1 /\ tab = Empty /\ cert = TRUE /\ len = 0 /\ ids = <<0, 0>>
Step(e) ==
  CASE e.e = "new"    -> New(e.ia, e.ic, e.len, e.em)
    [] e.e = "put"    -> Put(e.lo, e.hi, e.st, e.g, e.dmin, e.dmax, e.d2min, e.d2max, e.len)
    [] e.e = "audit"  -> Audit(e.got, e.len, e.em)
    [] e.e = "retain" -> Retain(e.dead, e.three = 1, e.len)
    [] e.e = "clear"  -> Clear(e.len, e.em)
    [] e.e = "burst"  -> Burst(e.s)
    [] e.e = "panic"  -> Req(FALSE, "panic", e.msg) /\ UNCHANGED cacheVars
TraceNext == l <= TraceLen /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<cacheVars, l>>
TraceView == l
TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = TraceLen
  \/ PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
