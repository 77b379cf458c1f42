-------------------------------- MODULE DDApi --------------------------------
(***************************************************************************)
(* API-level state machine of a rust-dd manager (any kind).                *)
(*                                                                         *)
(*   kind  "bdd" "zdd" "mdd" "mtmdd" "mtmdd2" "zmdd"   engine managers     *)
(*         "bss" (BddMgr+ZddMgr)  "zw" (ZddMgr)  "mss" (MddMgr+ZmddMgr)    *)
(*   geo   universe of variables (DDSem geometry)                          *)
(*   ord   declared variables, lowest level first                          *)
(*   H     live handles: [f forest, d denotation, id, ch children ids]     *)
(*   vid   name -> node id of the declared variable (wrapper managers)     *)
(*   st    forest -> <<live nodes, node store length>>                     *)
(*   thr   collection group -> [t threshold (-1 unknown), fl floor]        *)
(*   gcd   a collection may have happened                                  *)
(*                                                                         *)
(* One action per public call, at its return.  Requirements are grouped by *)
(* the property they belong to; Focus selects the properties enforced (all *)
(* of them in the exhaustive models; the checked one during trace          *)
(* validation, where the observed result is adopted for the others).       *)
(***************************************************************************)
EXTENDS DDSem

CONSTANTS Focus, Verbose

VARIABLES kind, geo, ord, H, vid, st, thr, gcd
apiVars == <<kind, geo, ord, H, vid, st, thr, gcd>>

Req(tags, cond, what, info) ==
  IF tags \cap Focus = {} THEN TRUE
  ELSE IF cond THEN TRUE
  ELSE IF Verbose THEN PrintT(<<"MISMATCH", tags \cap Focus, what, info>>) /\ FALSE
  ELSE FALSE

\* the geometry determines functions completely
Exact == geo.full \/ geo.hid.on

Wrapper == kind \in {"bss", "zw", "mss"}
Group(k, f) == IF k \in {"mss", "mtmdd2"} /\ f \in {"b", "v"} THEN {"b", "v"} ELSE {f}
VarForest == IF kind \in {"mss", "mtmdd2", "mtmdd"} THEN "v"
             ELSE IF kind \in {"zw", "zdd"} THEN "z"
             ELSE IF kind = "zmdd" THEN "y" ELSE "b"

OpTags(op, fs) ==
  LET b == \A i \in DOMAIN fs : fs[i] = "b"
      v == \A i \in DOMAIN fs : fs[i] = "v"
      base ==
        IF op \in {"union", "intersect", "setdiff", "product", "divide"} THEN {"C05"}
        ELSE IF op \in {"yintersect", "ysetdiff"} THEN {"C16"}
        ELSE IF kind \in {"bdd", "bss"} THEN {"C01"}
        ELSE IF op \in CmpOps \cup {"vif"} THEN {"C08"}
        ELSE IF op = "ite" THEN (IF MV(kind) THEN {"C08"} ELSE {}) \cup
                                (IF fs[2] = "b" THEN {"C06"} ELSE {})
        ELSE IF op \in LogicOps THEN (IF b THEN {"C06"} ELSE {"C08"})
        ELSE IF op \in ArithOps THEN (IF v THEN {"C07"} ELSE {"C08"})
        ELSE IF op \in {"andn", "orn"} THEN {"C06"}
        ELSE IF op \in {"minn", "maxn"} THEN {"C07"}
        ELSE IF op = "replace" THEN (IF b THEN {"C06"} ELSE {"C07"})
        ELSE {"C20"}
  IN IF gcd THEN base \cup {"C03"} ELSE base

ConstTags(f) ==
  IF f = "z" THEN {"C05"} ELSE IF f = "v" THEN {"C07"} ELSE IF f = "y" THEN {"C16"}
  ELSE IF kind \in {"bdd", "bss"} THEN {"C01"} ELSE {"C06"}

(***************************** canonicity (C02) ****************************)
SameFn(x, y) == x.f = y.f /\ x.d = y.d
SameId(x, y) == x.f = y.f /\ x.id = y.id
CanonPair(x, y) ==
  x.f = y.f =>
    IF Exact THEN (x.d = y.d) <=> (x.id = y.id) ELSE x.id = y.id => x.d = y.d
CanonWith(o) ==
  Req({"C02"}, \A h \in DOMAIN H : CanonPair(H[h], o), "canonicity",
      <<o, { h \in DOMAIN H : ~CanonPair(H[h], o) } >>)
Canonical == \A h1, h2 \in DOMAIN H : CanonPair(H[h1], H[h2])

(*********************** root introspection (C20) **************************)
RootLevel(f, d) ==
  LET S == { L \in 1..Len(ord) : NonRed(geo, d, ord[L].u, ZS(f), Null(f)) }
  IN IF S = {} THEN 0 ELSE CHOOSE L \in S : \A M \in S : M <= L
RootOK(o) ==
  IF {"C20", "C18"} \cap Focus = {} \/ ~Exact THEN TRUE
  ELSE
     LET L == RootLevel(o.f, o.d) IN
     /\ Req({"C20", "C18"}, o.lv = L - 1, "level of the root", <<o, L - 1>>)
     /\ Req({"C20", "C18"}, (L > 0) => o.lb = ord[L].nm, "label of the root", <<o, L>>)
     /\ Req({"C20"}, (L = 0) = (o.ch = << >>) /\ (L > 0 => Len(o.ch) = ord[L].k),
            "children of the root", <<o, L>>)

\* vs: the universe variables a labelled vector family lists in its vectors
Rec(o) == [f |-> o.f, d |-> o.d, id |-> o.id, ch |-> o.ch, vs |-> {}]
RecV(o, vs) == [Rec(o) EXCEPT !.vs = vs]
Bind(h, o) == H' = (h :> Rec(o)) @@ H
DeclaredVars == { ord[L].u : L \in 1..Len(ord) } \cap RealVars(geo)

(*********************** collection accounting (C04) ***********************)
RootDens(f, HH, oo) ==
  { HH[h].d : h \in { x \in DOMAIN HH : HH[x].f = f } } \cup
  (IF Wrapper /\ f = VarForest /\ kind # "zw"
   THEN { VarDen(geo, oo[L].u) : L \in { M \in 1..Len(oo) : oo[M].u > 0 } } ELSE {})
Fillers(oo) == { L \in 1..Len(oo) : oo[L].u = 0 /\ oo[L].k > 1 }
\* exact number of live nodes of forest f after a complete collection
LiveExp(f, HH, oo) ==
  LET S == RootDens(f, HH, oo)
      pinned == Wrapper /\ f = VarForest /\ kind # "zw"
      fl == IF pinned THEN Fillers(oo) ELSE {}
      hd == IF pinned THEN { L \in 1..Len(oo) : oo[L].u < 0 } ELSE {}
      vals == (Values(S) \cup UNION { 0..(oo[L].k - 1) : L \in fl \cup hd }) \ {UNDET}
  IN (IF geo.hid.on THEN NodeCountP(geo, S, oo, f, hd) ELSE NodeCount(geo, S, oo, f))
     + Cardinality(fl) +
     (IF f \in {"b", "z"} THEN 3 ELSE 1 + Cardinality(vals))

RECURSIVE SumOver(_, _)
SumOver(fn, S) == IF S = {} THEN 0
                  ELSE LET x == CHOOSE y \in S : TRUE IN fn[x] + SumOver(fn, S \ {x})
LiveOf(s, gr) == SumOver([f \in gr |-> s[f][1]], gr)
ArenaOf(s, gr) == SumOver([f \in gr |-> s[f][2]], gr)

\* growth of the node store only when no reclaimed slot is left
NoLeak(f, s) == (f \in DOMAIN st /\ s[f][2] > st[f][2]) => s[f][1] = s[f][2]

\* A call that allocates but cannot collect.
Grow(s, fset) ==
  Req({"C04"}, \A f \in fset \cap DOMAIN s : NoLeak(f, s), "slots reused before the store grows",
      <<st, s>>)

\* A call that may collect group gr at its end, result handles HH already bound:
\* the set of possible thresholds afterwards, starting from th.  extra bounds the number of
\* nodes the call can have created (-1: no bound known).
ThrAfter(gr, s, HH, oo, th, extra) ==
  IF "C04" \notin Focus \/ gr \notin DOMAIN th \/ ~Exact THEN {th}
  ELSE IF th[gr].t = -1 THEN {th}
  ELSE
  LET live == LiveOf(s, gr)
      t == th[gr].t
      \* the peak occupancy lies between the final one and the length of the store, and
      \* exceeds the occupancy before the call by what the call can have created
      canfire == ArenaOf(s, gr) >= t /\ (extra = -1 \/ LiveOf(st, gr) + extra >= t)
      mustfire == live >= t \/ live < LiveOf(st, gr)
      exact == \A f \in gr : s[f][1] = LiveExp(f, HH, oo)
      quiet == \A f \in gr : NoLeak(f, s)
      fired == IF canfire /\ exact
               THEN {[th EXCEPT ![gr].t = Max2(2 * live, th[gr].fl)]} ELSE {}
      idle == IF ~mustfire /\ quiet THEN {th} ELSE {}
  IN IF fired \cup idle = {} /\
        PrintT(<<"MISMATCH", {"C04"}, "automatic collection",
               [live |-> live, threshold |-> t, before |-> st, after |-> s,
                exact |-> [f \in gr |-> LiveExp(f, HH, oo)], extra |-> extra]>>)
     THEN {} ELSE fired \cup idle
AutoGc(gr, s, HH, oo, extra) == thr' \in ThrAfter(gr, s, HH, oo, thr, extra)

\* A call that may have collected group gr at intermediate points.
ThrUnknown(gr, s, th) ==
  IF gr \in DOMAIN th
  THEN IF th[gr].t # -1 /\ ArenaOf(s, gr) >= th[gr].t THEN [th EXCEPT ![gr].t = -1] ELSE th
  ELSE th
UnknownGc(gr, s) == thr' = ThrUnknown(gr, s, thr)

\* A generous bound on the nodes an operator on these operands can create.
ProdNodes(fs, ds, i) ==
  LET RECURSIVE P(_)
      P(j) == IF j > Len(ds) THEN 1
              ELSE (NodeCount(geo, {ds[j]}, ord, fs[j]) + 3) * P(j + 1)
  IN P(i)
OpExtra(op, fs, ds) ==
  IF "C04" \notin Focus \/ ~Exact \/ ~Wrapper \/ Len(ds) = 0 \/
     op \in {"divide", "kofn", "andn", "orn", "minn", "maxn", "dual"} \/
     (op = "product" /\ \E i \in 1..2 : Cardinality(Family(geo, ds[i])) # 1) THEN -1
  ELSE 3 * ProdNodes(fs, ds, 1) + 10

AfterCall(f, s, HH, oo, extra) ==
  /\ st' = s
  /\ IF Wrapper THEN AutoGc(Group(kind, f), s, HH, oo, extra)
     ELSE Grow(s, DOMAIN s) /\ thr' = thr

(******************************** actions **********************************)
Keep(vs) == UNCHANGED vs

\* an operator call
Apply(op, as, p, h, o, s) ==
  LET fs == [i \in DOMAIN as |-> H[as[i]].f]
      ds == [i \in DOMAIN as |-> H[as[i]].d]
      exp == Sem(geo, kind, op, fs, ds, p)
      tags == OpTags(op, fs)
  IN /\ \A i \in DOMAIN as : as[i] \in DOMAIN H
     /\ h \notin DOMAIN H
     /\ IF tags \cap Focus = {} THEN TRUE
        ELSE
           /\ Req(tags, o.f = OutForest(op, fs), "result kind", <<op, fs, o.f>>)
           /\ Req(tags, Agree(geo, exp, o.d), op, [args |-> ds, expected |-> exp, got |-> o.d])
     /\ CanonWith(o)
     /\ RootOK(o)
     /\ H' = (h :> RecV(o, IF o.f = "y" THEN H[as[1]].vs ELSE {})) @@ H
     /\ AfterCall(o.f, s, H', ord, OpExtra(op, fs, ds))
     /\ UNCHANGED <<kind, geo, ord, vid, gcd>>

\* one operator with operand number pos ranging over the handles in over; r: for each the handle
\* whose id the result has, or -j for the j-th new diagram os[j]; no result is kept
Row(op, as, pos, over, p, r, os, s) ==
  LET args(i) == [as EXCEPT ![pos] = over[i]]
      fs == [j \in DOMAIN as |-> H[as[j]].f]
      tags == OpTags(op, fs)
      got(i) == IF r[i] > 0 THEN H[r[i]] ELSE os[-r[i]]
      exp(i) == Sem(geo, kind, op, fs, [j \in DOMAIN as |-> H[args(i)[j]].d], p)
  IN /\ \A j \in DOMAIN as : as[j] \in DOMAIN H
     /\ \A i \in DOMAIN over : over[i] \in DOMAIN H /\ H[over[i]].f = fs[pos]
     /\ IF tags \cap Focus = {} THEN TRUE
        ELSE \A i \in DOMAIN over :
               /\ Req(tags, got(i).f = OutForest(op, fs), "result kind", <<op, fs, got(i).f>>)
               /\ Req(tags, Agree(geo, exp(i), got(i).d), op,
                      [args |-> [j \in DOMAIN as |-> H[args(i)[j]].d], expected |-> exp(i), got |-> got(i).d])
     /\ \A j \in DOMAIN os : CanonWith(os[j]) /\ RootOK(os[j])
     /\ Req({"C02"}, \A i, j \in DOMAIN os : i # j => ~(SameFn(os[i], os[j]) \/ SameId(os[i], os[j])),
            "canonicity", os)
     /\ st' = s
     /\ IF Wrapper THEN UnknownGc(Group(kind, OutForest(op, fs)), s) ELSE thr' = thr
     /\ UNCHANGED <<kind, geo, ord, H, vid, gcd>>

\* a constant / terminal; for the zero-suppressed forests the family holding only the
\* empty set (the all-zero vector), labelled c
ConstFn(f, c) ==
  IF ZS(f)
  THEN [i \in Pts(geo) |-> IF \A v \in Vars(geo) : geo.dg[i][v] = 0 THEN c ELSE Null(f)]
  ELSE ConstDen(geo, c)
Constant(f, c, h, o, s) ==
  /\ h \notin DOMAIN H
  /\ Req(ConstTags(f), o.f = f /\ o.d = ConstFn(f, c), "constant", <<f, c, o>>)
  /\ CanonWith(o)
  /\ RootOK(o)
  /\ Bind(h, o)
  /\ AfterCall(f, s, (h :> Rec(o)) @@ H, ord, 2)
  /\ UNCHANGED <<kind, geo, ord, vid, gcd>>

\* create_node(header of level L, children)
Create(L, as, h, o, s) ==
  LET u == ord[L].u
      ds == [i \in DOMAIN as |-> H[as[i]].d]
      f == H[as[1]].f
      exp == MkNode(geo, f, u, ds)
  IN /\ \A i \in DOMAIN as : as[i] \in DOMAIN H
     /\ h \notin DOMAIN H
     /\ Req(OpTags("create", <<f>>) \cup {"C20"}, o.f = f /\ (geo.full => exp = o.d), "create_node",
            [args |-> ds, expected |-> exp, got |-> o.d])
     /\ CanonWith(o)
     /\ RootOK(o)
     /\ Bind(h, o)
     /\ AfterCall(f, s, (h :> Rec(o)) @@ H, ord, 2)
     /\ UNCHANGED <<kind, geo, ord, vid, gcd>>

\* A class function of a sum geometry built by unlogged calls: tab is its intended denotation.
Mk(f, tab, tg, h, o, s) ==
  /\ h \notin DOMAIN H
  /\ Req(tg, o.f = f /\ o.d = tab, "function built from many variables",
         [expected |-> tab, got |-> o])
  /\ CanonWith(o)
  /\ RootOK(o)
  /\ Bind(h, o)
  /\ st' = s
  /\ IF Wrapper THEN UnknownGc(Group(kind, f), s) ELSE thr' = thr
  /\ UNCHANGED <<kind, geo, ord, vid, gcd>>

\* declaring a variable (u = 0: a filler outside the universe), o observed handle,
\* vo observed variable order after the call
DefVar(nm, u, k, h, o, vo, nv, s) ==
  LET known == \E L \in 1..Len(ord) : ord[L].nm = nm
      ord1 == IF known THEN ord ELSE Append(ord, [nm |-> nm, u |-> u, k |-> k])
      dvar == IF ZS(VarForest)
              THEN [i \in Pts(geo) |-> B(\A v \in Vars(geo) : geo.dg[i][v] = B(v = u))]
              ELSE VarDen(geo, u)
  IN /\ h \notin DOMAIN H
     /\ ord' = ord1
     \* (a set-family element is not pinned: its singleton may be rebuilt after a collection)
     /\ Req({"C18"}, (known /\ kind # "zw" /\ nm \in DOMAIN vid) => o.id = vid[nm],
            "redeclaration returns the same handle", <<nm, o>>)
     /\ Req({"C18"}, Len(vo) = Len(ord1) /\ \A L \in 1..Len(ord1) :
                        vo[L][1] = ord1[L].nm /\ vo[L][2] = ord1[L].k,
            "variable order", <<vo, ord1>>)
     /\ Req({"C18"}, nv = Len(ord1), "reported number of variables", <<nv, ord1>>)
     /\ Req({"C18"}, \E L \in 1..Len(ord1) : ord1[L].nm = nm /\ (IF ord1[L].k = 1 THEN o.lv = -1 ELSE o.lv = L - 1 /\ o.lb = nm),
            "level of a declared variable", <<nm, o, ord1>>)
     /\ Req({"C18"}, (u > 0) => o.d = dvar, "a variable denotes its state", <<nm, o>>)
     /\ vid' = IF nm \in DOMAIN vid THEN vid ELSE (nm :> o.id) @@ vid
     /\ IF u > 0 THEN CanonWith(o) /\ Bind(h, o) ELSE H' = H
     /\ st' = s
     /\ IF kind = "zw"
        THEN IF u > 0 THEN AutoGc({"z"}, s, H', ord1, 4) ELSE UnknownGc({"z"}, s)
        ELSE Grow(s, DOMAIN s) /\ thr' = thr
     /\ UNCHANGED <<kind, geo, gcd>>

OrdOf(vo) == [L \in 1..Len(vo) |-> [nm |-> vo[L][1], k |-> vo[L][2], u |-> vo[L][3]]]
\* from_sets: a family from an explicit list of sets of universe indices
FromSets(sets, vo, h, o, s) ==
  /\ h \notin DOMAIN H
  /\ ord' = OrdOf(vo)
  /\ Req({"C05"}, o.f = "z" /\ o.d = CharDen(geo, { RangeOf(sets[i]) : i \in DOMAIN sets }),
         "from_sets", <<sets, o>>)
  /\ CanonWith(o)
  /\ Bind(h, o)
  /\ st' = s /\ UnknownGc({"z"}, s)
  /\ UNCHANGED <<kind, geo, vid, gcd>>

Clone(a, h, o) ==
  /\ a \in DOMAIN H /\ h \notin DOMAIN H
  /\ Req({"C03", "C02"}, o.id = H[a].id /\ o.d = H[a].d, "clone", <<a, o>>)
  /\ H' = (h :> H[a]) @@ H
  /\ UNCHANGED <<kind, geo, ord, vid, st, thr, gcd>>

\* child handles obtained through get_children
Child(a, i, h, o) ==
  /\ a \in DOMAIN H /\ h \notin DOMAIN H
  /\ Req({"C20"}, o.id = H[a].ch[i + 1], "get_children id", <<a, i, o>>)
  /\ Req({"C20"}, LET L == RootLevel(H[a].f, H[a].d) IN
            geo.full => (L > 0 /\ \A p \in Pts(geo) :
               geo.dg[p][ord[L].u] = (IF ZS(H[a].f) THEN 0 ELSE i) =>
                 o.d[p] = H[a].d[p + (IF ZS(H[a].f) THEN i * geo.str[ord[L].u] ELSE 0)]),
         "get_children denotation", <<a, i, o>>)
  /\ CanonWith(o)
  /\ Bind(h, o)
  /\ UNCHANGED <<kind, geo, ord, vid, st, thr, gcd>>

Drop(hs) ==
  /\ H' = [h \in DOMAIN H \ hs |-> H[h]]
  /\ UNCHANGED <<kind, geo, ord, vid, st, thr, gcd>>

\* cs: number of stored results the manager reports afterwards
ClearCache(cs, s) ==
  /\ Req({"C17"}, cs = 0, "a cleared table is empty", <<cs>>)
  /\ st' = s
  /\ UNCHANGED <<kind, geo, ord, vid, H, thr, gcd>>

\* explicit collection of the forests fset; reach is the harness' own reachability
\* count, used only for probe geometries
Collect(fset, s, reach) ==
  /\ st' = s
  /\ gcd' = TRUE
  /\ \A f \in fset :
       Req({"C04"}, s[f][1] = IF Exact THEN LiveExp(f, H, ord) ELSE reach[f],
           "live nodes after a collection",
           [forest |-> f, live |-> s[f],
            expected |-> IF Exact THEN LiveExp(f, H, ord) ELSE reach[f]])
  /\ \A f \in fset :
       Req({"C04"}, f \in DOMAIN st => s[f][2] = st[f][2], "a collection allocates nothing", <<st, s>>)
  /\ UNCHANGED <<kind, geo, ord, H, vid, thr>>

\* Garbage: diagrams built and dropped again until the automatic collector of group gr has run.
\* hi: the largest number of live nodes after any of the calls; x: what one diagram can pin.
Flood(gr, hi, falls, x, s) ==
  LET known == gr \in DOMAIN thr
      L == IF Exact /\ "C04" \in Focus THEN SumOver([f \in gr |-> LiveExp(f, H, ord)], gr) ELSE 0
      cur == IF known THEN Max2(thr[gr].t, thr[gr].fl) ELSE 131072
      bound == Max2(cur, 2 * (L + x))
      RECURSIVE AllUnk(_, _)
      AllUnk(S, th) == IF S = {} THEN th
                    ELSE LET g == CHOOSE y \in S : TRUE IN AllUnk(S \ {g}, ThrUnknown(g, s, th))
  IN /\ Req({"C04"}, (Exact /\ (known => thr[gr].t # -1)) =>
               /\ hi < bound
               /\ ArenaOf(s, gr) <= Max2(ArenaOf(st, gr), bound + 2 * x),
            "occupancy stays below the threshold", [high |-> hi, bound |-> bound, falls |-> falls, after |-> s])
     /\ Req({"C04", "C03"}, LiveOf(s, gr) >= L, "live nodes were collected", [live |-> s, held |-> L])
     /\ st' = s
     /\ gcd' = TRUE
     /\ thr' = AllUnk(DOMAIN thr, thr)
     /\ UNCHANGED <<kind, geo, ord, H, vid>>

\* Nodes that no handle reaches appear in the stores (made below the wrapper, which notices them at its
\* next call): no handle changes.
Garbage(s) ==
  /\ Req({"C03"}, \A f \in DOMAIN st : f \in DOMAIN s /\ s[f][1] >= st[f][1], "live nodes disappeared", <<st, s>>)
  /\ st' = s
  /\ UNCHANGED <<kind, geo, ord, H, vid, gcd, thr>>

(* A node store of more than a million nodes (an episode of its own).  req different requests for a node
   that is not redundant got ids different ids, together with the nt terminals; again of them another id
   when repeated; red redundant ones not the child they amount to; bad of the nodes do not read back as
   requested.  live nodes are held, perm of them terminals.  grew: growth of the store while slots of
   reclaimed nodes were free. *)
Mass(req, nt, ids, again, red, bad, perm, live, grew) ==
  /\ Req({"C02"}, ids = req + nt /\ again = 0, "canonical nodes of a large store", [requests |-> req, ids |-> ids - nt, again |-> again])
  /\ Req({"C20"}, bad = 0 /\ red = 0 /\ ids = req + nt, "nodes of a large store", [differ |-> bad, redundant |-> red])
  /\ Req({"C03"}, bad = 0 /\ again = 0, "nodes of a large store after a collection", [differ |-> bad, again |-> again])
  /\ Req({"C04"}, live = req + perm /\ grew = 0, "live nodes of a large store", [live |-> live, reachable |-> req + perm, grew |-> grew])
  /\ UNCHANGED <<kind, geo, ord, H, vid, gcd, thr, st>>

Threshold(gr, t) ==
  /\ thr' = (gr :> [t |-> t, fl |-> t]) @@ thr
  /\ gcd' = TRUE
  /\ UNCHANGED <<kind, geo, ord, H, vid, st>>

\* a result after a collection (or where one may run) is C03's as well
Later(tags) == IF gcd THEN tags \cup {"C03"} ELSE tags

\* Re-observation of live handles: each keeps its function, id and children.
Stable(l, tags) ==
  /\ \A i \in DOMAIN l :
       LET x == l[i] IN
       Req({"C03"} \cup tags,
           x.h \in DOMAIN H /\ x.o.d = H[x.h].d /\ x.o.id = H[x.h].id /\ x.o.ch = H[x.h].ch,
           "a live handle changed", <<x, H[x.h]>>)
  /\ UNCHANGED apiVars

Equalities(l) ==
  /\ Req({"C02"}, \A i \in DOMAIN l : (l[i][3] = 1) = (H[l[i][1]].id = H[l[i][2]].id) /\
            (Exact => (l[i][3] = 1) = (H[l[i][1]].d = H[l[i][2]].d)), "eq", l)
  /\ UNCHANGED apiVars

\* minimal paths / cuts: some = FALSE when the call reported "none"
MinSol(w, a, some, h, o, s) ==
  LET d == H[a].d
      mss == kind = "mss"
      tag == Later(IF mss THEN {"C10"} ELSE {"C09"})
      mono == Monotone(geo, d)
      exp == IF mss THEN (IF w = "cut" THEN MaxVecDen(geo, d) ELSE MinVecDen(geo, d))
             ELSE (IF w = "cut" THEN MinCutDen(geo, d) ELSE MinPathDen(geo, d))
      zf == IF mss THEN "y" ELSE "z"
      main == Group(kind, H[a].f)
  IN /\ a \in DOMAIN H
     /\ Req(tag, geo.full => (some = mono), "coherence verdict", <<w, d, some>>)
     /\ IF some
        THEN /\ h \notin DOMAIN H
             /\ Req(tag, (geo.full /\ mono) => (o.f = zf /\ exp = o.d), "minimal vectors",
                    [of |-> d, which |-> w, expected |-> exp, got |-> o.d])
             /\ CanonWith(o)
             /\ RootOK(o)
             /\ H' = (h :> RecV(o, DeclaredVars)) @@ H
        ELSE H' = H
     /\ st' = s
     \* the search leaves garbage in the source forest; mincut of the binary manager
     \* may also collect it at an intermediate point
     /\ LET th1 == IF w = "cut" /\ ~mss THEN ThrUnknown(main, s, thr) ELSE thr
        IN /\ IF w = "cut" /\ ~mss THEN TRUE ELSE Grow(s, main)
           /\ thr' \in IF some THEN ThrAfter({zf}, s, H', ord, th1, -1) ELSE {th1}
     /\ UNCHANGED <<kind, geo, ord, vid, gcd>>

\* minimal paths / cuts over many variables: cs = <<label, number (mod m)>> per label of the
\* result, items = <<label, vector>> some of its members
MinSolH(w, a, some, cs, items, m, s) ==
  LET d == H[a].d
      mss == kind = "mss"
      tag == IF mss THEN {"C10"} ELSE {"C09"}
      cut == w = "cut"
      mono == Monotone(geo, d)
      ways == TLCEval(MinWays(geo.hid, 1, (<<0, {}>> :> 1), cut, m))
      labels == IF mss THEN RangeOf(d) ELSE {1}
      \* a binary cut set lists the failed components of a maximal vector of value 0
      val(lb) == IF ~mss /\ cut THEN 0 ELSE lb
      vec(it) == IF ~mss /\ cut THEN [x \in DOMAIN it |-> 1 - it[x]] ELSE it
      exp(lb) == MinCount(geo, d, val(lb), cut, ways, m)
      zf == IF mss THEN "y" ELSE "z"
      main == Group(kind, H[a].f)
  IN /\ Req(tag, some = mono, "coherence verdict", <<w, d, some>>)
     /\ IF tag \cap Focus # {} /\ some /\ mono
        THEN /\ Req(tag, { cs[i][1] : i \in DOMAIN cs } \subseteq labels, "labels", <<cs, labels>>)
             /\ \A lb \in labels :
                  LET got == { cs[i][2] : i \in { x \in DOMAIN cs : cs[x][1] = lb } } IN
                  Req(tag, got = {exp(lb)} \/ (got = {} /\ exp(lb) = 0), "number of minimal vectors",
                      [of |-> d, which |-> w, label |-> lb, expected |-> exp(lb), got |-> got])
             /\ \A i \in DOMAIN items :
                  Req(tag, IsExtreme(geo, d, vec(items[i][2]), val(items[i][1]), cut),
                      "a member is not minimal", [of |-> d, which |-> w, item |-> items[i]])
             /\ Req(tag, Cardinality({ items[i] : i \in DOMAIN items }) = Len(items),
                    "a member listed twice", items)
        ELSE TRUE
     /\ st' = s
     /\ thr' = ThrUnknown({zf}, s, ThrUnknown(main, s, thr))
     /\ UNCHANGED <<kind, geo, ord, H, vid, gcd>>

\* reverse-Polish expression; news = universe indices/names newly declared, in order
RpnCall(toks, ok, vo, h, o, s) ==
  LET r == Rpn(geo, kind, toks)
      RECURSIVE Decl(_, _)
      Decl(i, oo) == IF i > Len(toks) THEN oo
                     ELSE IF toks[i].t = "var" /\ ~\E L \in 1..Len(oo) : oo[L].nm = toks[i].nm
                     THEN Decl(i + 1, Append(oo, [nm |-> toks[i].nm, u |-> toks[i].u,
                                                  k |-> geo.ar[toks[i].u]]))
                     ELSE Decl(i + 1, oo)
      exp == Decl(1, ord)
      obs == OrdOf(vo)
  IN /\ Req(Later({"C15"}), ok = r.ok, "accepted or rejected", <<toks, ok, r.ok>>)
     \* a rejected expression may have declared a prefix of its variables
     /\ Req({"C18"}, IF ok THEN obs = exp
                     ELSE Len(ord) <= Len(obs) /\ SubSeq(obs, 1, Len(ord)) = ord
                          /\ Len(obs) <= Len(exp)
                          /\ { obs[L].nm : L \in DOMAIN obs } \subseteq { exp[L].nm : L \in DOMAIN exp }
                          /\ Cardinality({ obs[L].nm : L \in DOMAIN obs }) = Len(obs),
            "variable order after an expression", <<toks, vo, exp>>)
     /\ ord' = obs
     /\ IF ok
        THEN /\ h \notin DOMAIN H
             /\ Req(Later({"C15"}), r.ok => (o.f = r.f /\ Agree(geo, r.d, o.d)), "expression value",
                    [toks |-> toks, expected |-> r, got |-> o])
             /\ Req({"C15", "C02"}, \A x \in DOMAIN H : CanonPair(H[x], o), "expression handle", <<toks, o>>)
             /\ Bind(h, o)
        ELSE H' = H
     /\ st' = s
     /\ IF ok THEN AutoGc(Group(kind, o.f), s, H', obs, -1)
        ELSE Grow(s, DOMAIN s) /\ thr' = thr
     /\ UNCHANGED <<kind, geo, vid, gcd>>

(******************************** queries **********************************)
AnTag(a, b) == IF kind \in {"bss", "zw"} THEN {a} ELSE {b}
SelOf(sel) == RangeOf(sel)

\* hw: weights of the hidden variables (sum geometry)
FullW(w, hw, m) == IF geo.hid.on THEN Append(w, Dist(geo, hw, m)) ELSE w
QProb(h, w0, hw, sel, m, r) ==
  LET w == FullW(w0, hw, m) IN
  /\ Req(AnTag("C11", "C12"), r = Prob(geo, H[h].d, w, SelOf(sel), m), "probability",
         [of |-> H[h].d, w |-> w0, hw |-> hw, sel |-> sel, m |-> m,
          expected |-> Prob(geo, H[h].d, w, SelOf(sel), m), got |-> r])
  /\ UNCHANGED apiVars
\* r: <<lower, upper>>; ws: probability vectors inside the boxes the call was given; pt: the
\* boxes are points. The result encloses the exact value for every vector, exactly on points.
Enclose(r, pt, ws, True(_)) ==
  /\ \A k \in DOMAIN ws : r[1] <= True(ws[k]) /\ True(ws[k]) <= r[2]
  /\ pt => r[1] = r[2]
\* interval-valued probabilities: bm = FALSE (probability), TRUE (importance)
QInterval(h, bm, pt, ws, sel, r) ==
  LET d == H[h].d
      s == SelOf(sel)
      one(k) == LET u == r[k][1] IN
        IF ~bm THEN Enclose(r[k][2][1], pt, ws, LAMBDA w : Prob(geo, d, w, s, 0))
        ELSE IF u < 1 THEN \A j \in DOMAIN r[k][2] : r[k][2][j][1] <= 0 /\ r[k][2][j][2] >= 0
        ELSE /\ Len(r[k][2]) = geo.ar[u] - 1
             /\ \A j \in DOMAIN r[k][2] :
                  Enclose(r[k][2][j], pt, ws, LAMBDA w : Birnbaum(geo, d, w, s, u, j, 0))
  IN
  /\ Req(AnTag("C11", "C12"), \A k \in DOMAIN r : one(k), "interval probability",
         [of |-> d, ws |-> ws, sel |-> sel, got |-> r])
  /\ UNCHANGED apiVars
\* importance of hidden variable j between states x - 1 and x
BirnbaumH(d, w0, hw, sel, j, x, m) ==
  LET at(y) == Prob(geo, d, Append(w0, Dist(geo, [hw EXCEPT ![j] =
                     [z \in DOMAIN hw[j] |-> B(z = y + 1)]], m)), sel, m)
  IN (at(x) + m - at(x - 1)) % m

\* r: sequence of <<universe index, <<D_1, .., D_{M-1}>> >>
QBirnbaum(h, w0, hw, sel, m, r) ==
  LET d == H[h].d
      w == FullW(w0, hw, m)
  IN
  /\ \A i \in DOMAIN r :
       LET u == r[i][1] IN
       Req(AnTag("C11", "C12"),
           IF u = 0 THEN \A j \in DOMAIN r[i][2] : r[i][2][j] = 0
           ELSE IF u < 0
           THEN /\ Len(r[i][2]) = geo.hid.k[-u] - 1
                /\ \A j \in 1..(geo.hid.k[-u] - 1) :
                     r[i][2][j] = BirnbaumH(d, w0, hw, SelOf(sel), -u, j, m)
           ELSE /\ Len(r[i][2]) = geo.ar[u] - 1
                /\ \A j \in 1..(geo.ar[u] - 1) :
                     r[i][2][j] = Birnbaum(geo, d, w, SelOf(sel), u, j, m),
           "importance", [of |-> d, w |-> w, sel |-> sel, m |-> m, var |-> u, got |-> r[i][2],
              expected |-> IF u <= 0 THEN << >> ELSE
                [j \in 1..(geo.ar[u] - 1) |-> Birnbaum(geo, d, w, SelOf(sel), u, j, m)]])
  /\ Req(AnTag("C11", "C12"),
         \A u \in RealVars(geo) \cup { -j : j \in 1..Len(geo.hid.k) } :
            DependsU(geo, d, u) => \E i \in DOMAIN r : r[i][1] = u,
         "every variable of the function is reported", <<d, r>>)
  /\ UNCHANGED apiVars

QCount(h, sel, m, r, ln) ==
  LET x == H[h]
      exp == IF x.f \in {"z", "y"} /\ geo.hid.on
             THEN LET ds == Dist(geo, UnitW(geo, HidBelow(ord, Len(ord))), m) IN
                  SumOverSet(LAMBDA i : ds[geo.dg[i][Virt(geo)] + 1],
                    { i \in Pts(geo) : x.d[i] # UNDET /\ x.d[i] \in SelOf(sel) }, m)
             ELSE IF x.f \in {"z", "y"}
             THEN Cardinality({ i \in Pts(geo) : x.d[i] # UNDET /\ x.d[i] \in SelOf(sel) })
             ELSE Count(geo, x.d, ord, SelOf(sel), m)
  IN /\ Req(AnTag("C13", "C14"), r = exp /\ ln = exp, "count",
            [of |-> x.d, sel |-> sel, expected |-> exp, got |-> <<r, ln>>])
     /\ UNCHANGED apiVars

\* items: for "b"/"v" one digit (or -1) per universe variable; "z" the set as 0/1 digits;
\* "y" the state vector
QExtract(h, sel, items, rev) ==
  LET x == H[h]
      exp == IF x.f = "z" THEN { geo.dg[i] : i \in { j \in Pts(geo) : x.d[j] = 1 /\ 1 \in SelOf(sel) } }
             ELSE IF x.f = "y" THEN FamVecs(geo, x.d, SelOf(sel), rev, x.vs)
             ELSE Listed(geo, x.d, ord, SelOf(sel))
      tag == AnTag("C13", "C14") \cup
             (IF x.f = "y" THEN {"C10", "C16"} ELSE IF x.f = "z" THEN {"C05", "C09"} ELSE {})
  IN /\ Req(tag, Len(items) = Cardinality(exp) /\ RangeOf(items) = exp, "enumeration",
            [of |-> x.d, sel |-> sel, expected |-> exp, got |-> items])
     /\ UNCHANGED apiVars

\* Enumeration over many variables: items are full vectors (explicit, then hidden; -1 where the
\* variable is not listed), n their number modulo m; complete iff all are given.
QExtractH(h, sel, items, n, m) ==
  LET x == H[h]
      t == TopLevel(geo, x.d, ord)
      low == { ord[L].u : L \in 1..t }
      lst == { v \in RealVars(geo) : v \in low } \cup
             { NE(geo) + j : j \in { i \in 1..Len(geo.hid.k) : -i \in low } }
      zero(it) == [v \in DOMAIN it |-> IF it[v] = -1 THEN 0 ELSE it[v]]
      tag == AnTag("C13", "C14")
  IN IF tag \cap Focus = {} THEN UNCHANGED apiVars
     ELSE
     /\ Req(tag, n = Count(geo, x.d, ord, SelOf(sel), m), "number of enumerated vectors",
            [of |-> x.d, sel |-> sel, expected |-> Count(geo, x.d, ord, SelOf(sel), m), got |-> n])
     /\ Req(tag, Cardinality(RangeOf(items)) = Len(items), "listed twice", items)
     /\ \A i \in DOMAIN items :
          Req(tag, { v \in DOMAIN items[i] : items[i][v] # -1 } = lst /\
                   x.d[PtOf(geo, zero(items[i]))] \in SelOf(sel) \ {UNDET},
              "listed vector", [of |-> x.d, item |-> items[i], listed |-> lst])
     /\ UNCHANGED apiVars

\* what a labelled family says about itself: its labels, whether its vectors are maximal (cuts) or
\* minimal (paths), and the components its vectors list (those declared when it was made, in order)
QLabels(h, r, rev, cut, vars) ==
  LET exp == RangeOf(H[h].d) \ {UNDET} IN
  /\ Req({"C10", "C16"}, cut = rev, "path or cut family", <<rev, cut>>)
  /\ Req({"C10", "C16"},
         /\ Len(vars) <= Len(ord)
         /\ \A j \in DOMAIN vars : vars[j].nm = ord[j].nm /\ vars[j].k = ord[j].k
         /\ { ord[j].u : j \in DOMAIN vars } \ {0} = H[h].vs,
         "components of the family", <<vars, ord, H[h].vs>>)
  /\ Req({"C14", "C16"}, Len(r) = Cardinality(exp) /\ RangeOf(r) = exp, "labels", <<H[h].d, r>>)
  /\ UNCHANGED apiVars

QLevel(h, v, items, rev) ==
  LET exp == LevelVecs(geo, H[h].d, v, rev, H[h].vs) IN
  /\ Req({"C10"}, Len(items) = Cardinality(exp) /\ RangeOf(items) = exp, "level query",
         [of |-> H[h].d, v |-> v, expected |-> exp, got |-> items])
  /\ UNCHANGED apiVars

\* Graphviz text read back.  ns: <<name, label, terminal?>>; es: <<from, to, index>>.
\* Labels of terminals are given as the denoted integer (UNDET for "Undet").
DotVal(ns, es, root, f, i) ==
  LET NodeOf(x) == CHOOSE j \in DOMAIN ns : ns[j][1] = x
      UOf(lb) == LET S == { L \in 1..Len(ord) : ord[L].nm = lb } IN
                 IF S = {} THEN 0 ELSE CHOOSE L \in S : TRUE
      miss == IF f = "z" THEN 0 ELSE UNDET
      RECURSIVE Walk(_, _)
      \* lim bounds the walk; above = levels that must be 0 for zero-suppressed forests
      Walk(x, lim) ==
        LET nd == ns[NodeOf(x)] IN
        IF nd[3] = 1
        THEN IF ZS(f) /\ (\E L \in 1..(lim - 1) : ord[L].u > 0 /\ geo.dg[i][ord[L].u] > 0)
             THEN miss ELSE nd[2]
        ELSE LET L == UOf(nd[2]) IN
             IF L = 0 \/ L >= lim THEN -123456
             ELSE IF ZS(f) /\ (\E M \in (L + 1)..(lim - 1) :
                                  ord[M].u > 0 /\ geo.dg[i][ord[M].u] > 0) THEN miss
             ELSE LET s == geo.dg[i][ord[L].u]
                      out == { j \in DOMAIN es : es[j][1] = x /\ es[j][3] = s }
                  IN IF out = {} THEN miss
                     ELSE Walk(es[CHOOSE j \in out : TRUE][2], L)
  IN Walk(root, Len(ord) + 1)

QDot(h, ns, es, junk) ==
  LET x == H[h]
      names == { ns[j][1] : j \in DOMAIN ns }
      roots == { a \in names : ~\E j \in DOMAIN es : es[j][2] = a }
      declared == { L \in 1..Len(ord) : ord[L].u > 0 }
      undecl == Vars(geo) \ { ord[L].u : L \in declared }
  IN /\ Req({"C19"}, junk = 0, "unreadable lines", <<junk>>)
     /\ Req({"C19"}, Cardinality(names) = Len(ns), "a node drawn twice", <<ns>>)
     /\ Req({"C19"}, \A j \in DOMAIN es : es[j][1] \in names /\ es[j][2] \in names,
            "an edge to a node that is not drawn", <<ns, es>>)
     /\ Req({"C19"}, \A j, k \in DOMAIN es :
              (es[j][1] = es[k][1] /\ es[j][3] = es[k][3]) => j = k, "a branch drawn twice", <<es>>)
     /\ Req({"C19"}, Cardinality(roots) = 1, "one root", <<ns, es>>)
     /\ Req({"C19"}, (Cardinality(roots) = 1 /\ geo.full) =>
              \A i \in Pts(geo) :
                 (ZS(x.f) /\ \E v \in undecl : geo.dg[i][v] > 0)
                 \/ DotVal(ns, es, CHOOSE r \in roots : TRUE, x.f, i) = x.d[i],
            "the picture denotes another function", [of |-> x, ns |-> ns, es |-> es])
     /\ Req({"C19"}, Cardinality({ j \in DOMAIN ns : ns[j][3] = 0 }) = NodeCount(geo, {x.d}, ord, x.f),
            "number of drawn nodes", <<x, ns>>)
     /\ UNCHANGED apiVars

\* Reachable structure: ns: <<id, level (-1 terminal), children>>; sz reported size,
\* or << >>; flags: <<is_zero, is_one>> or << >>
QSnap(h, ns, sz, flags) ==
  LET x == H[h]
      At(i) == CHOOSE j \in DOMAIN ns : ns[j][1] = i
      LevelAt(i) == ns[At(i)][2]
      inner == { j \in DOMAIN ns : ns[j][2] >= 0 }
      Redundant(n) ==
        IF ZS(x.f) THEN \A c \in 2..Len(n[3]) : n[3][c] = 0 \* id of the empty family
        ELSE \A c \in 2..Len(n[3]) : n[3][c] = n[3][1]
  IN /\ Req({"C20"}, \A j \in DOMAIN ns : ns[j][2] >= -1, "an edge leads out of the diagram", <<ns>>)
     /\ Req({"C20"}, \A j \in inner : RangeOf(ns[j][3]) \subseteq { ns[k][1] : k \in DOMAIN ns },
            "a child that is not in the diagram", <<ns>>)
     /\ Req({"C20"}, \A j \in inner : \A c \in DOMAIN ns[j][3] :
               LevelAt(ns[j][3][c]) < ns[j][2], "ordered", <<ns>>)
     /\ Req({"C20"}, \A j \in inner : ~Redundant(ns[j]), "reduced", <<ns>>)
     /\ Req({"C20"}, \A j, k \in inner :
               (ns[j][2] = ns[k][2] /\ ns[j][3] = ns[k][3]) => j = k, "shared", <<ns>>)
     /\ Req({"C20"}, \A j \in inner : ns[j][2] < Len(ord) => Len(ns[j][3]) = ord[ns[j][2] + 1].k,
            "one child per state", <<ns>>)
     /\ Req({"C20"}, Exact => Cardinality(inner) = NodeCount(geo, {x.d}, ord, x.f),
            "number of nodes", <<x, ns>>)
     /\ Req({"C20"}, sz # << >> =>
              /\ sz[1] = Cardinality(inner)
              /\ sz[2] = Len(ns) - Cardinality(inner)
              /\ sz[3] = SumOver([j \in inner |-> Len(ns[j][3])], inner),
            "reported size", <<ns, sz>>)
     /\ Req({"C20"}, flags # << >> /\ geo.full =>
              IF x.f = "v"
              THEN flags[1] = 0 /\ flags[2] = 0
              ELSE IF x.f = "z"
              THEN /\ (flags[1] = 1) = (Family(geo, x.d) = {})
                   /\ (flags[2] = 1) = (Family(geo, x.d) = {{}})
              ELSE /\ (flags[1] = 1) = (x.d = ConstDen(geo, 0))
                   /\ (flags[2] = 1) = (x.d = ConstDen(geo, 1)), "constant predicates", <<x, flags>>)
     /\ Req({"C20"}, Len(flags) >= 3 /\ geo.full /\ x.f = "b" =>
              (flags[3] = 1) = (x.d = ConstDen(geo, UNDET)), "undetermined constant", <<x, flags>>)
     /\ Req({"C20"}, Len(flags) = 7 /\ geo.full =>
              /\ flags[4] = B(x.f = "b") /\ flags[5] = B(x.f = "v")
              /\ flags[6] = B(x.f = "v" /\ x.d = ConstDen(geo, x.d[1]) /\ x.d[1] # UNDET)
              /\ flags[6] = 1 => flags[7] = x.d[1], "kind and constant value", <<x, flags>>)
     /\ UNCHANGED apiVars

\* The structure below all handles of forest f together: one node per function, across diagrams
QShared(f, ns) ==
  LET Ds == { H[h].d : h \in { x \in DOMAIN H : H[x].f = f } }
      inner == { j \in DOMAIN ns : ns[j][2] >= 0 }
  IN /\ Req({"C20"}, \A j \in DOMAIN ns : ns[j][2] >= -1, "an edge leads out of the diagram", <<ns>>)
     /\ Req({"C20"}, { H[h].id : h \in { x \in DOMAIN H : H[x].f = f } } \subseteq { ns[j][1] : j \in DOMAIN ns },
            "a handle without a node", <<ns>>)
     /\ Req({"C20", "C02"}, Cardinality({ <<ns[j][2], ns[j][3]>> : j \in inner }) = Cardinality(inner),
            "shared between diagrams", <<ns>>)
     /\ Req({"C20", "C02"}, Exact => Cardinality(inner) = NodeCount(geo, Ds, ord, f),
            "number of nodes of the diagrams together", <<Ds, ns>>)
     /\ UNCHANGED apiVars

\* the same call with warm and with cleared computed tables
QWarmCold(h, o, s) ==
  /\ Req({"C17"}, o.id = H[h].id /\ o.d = H[h].d, "cold result differs from warm result",
         <<H[h], o>>)
  /\ st' = s
  /\ UNCHANGED <<kind, geo, ord, vid, H, thr, gcd>>

\* two handles built by calls that must give the same function (probe geometry)
QSame(a, b) ==
  /\ Req({"C02"}, H[a].f = H[b].f /\ H[a].id = H[b].id, "equal functions, different handles",
         <<H[a], H[b]>>)
  /\ UNCHANGED apiVars
=============================================================================
