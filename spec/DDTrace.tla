------------------------------- MODULE DDTrace -------------------------------
(***************************************************************************)
(* Validation of traces recorded from the real managers: every event of    *)
(* the trace must be a step of DDApi with the logged arguments and result. *)
(* One line of the trace file = one public call.  "reset" starts a new     *)
(* episode with a fresh manager.                                           *)
(***************************************************************************)
EXTENDS DDApi, Json, IOUtils

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)

SetOf(s) == { s[i] : i \in DOMAIN s }

TraceInit ==
  /\ l = 1
  /\ kind = "" /\ geo = FullGeo(<<2>>) /\ ord = << >> /\ H = << >> /\ vid = << >>
  /\ st = << >> /\ thr = << >> /\ gcd = FALSE

Reset(e) ==
  /\ kind' = e.k
  /\ geo' = CASE e.full = 1 -> FullGeo(e.ar)
               [] e.full = 2 -> SumGeo(e.ar, e.hk, e.hw, e.hm, e.hc)
               [] OTHER -> ProbeGeo(e.ar, e.pts)
  /\ ord' = OrdOf(e.ord)
  /\ H' = << >> /\ vid' = << >> /\ st' = e.st /\ thr' = << >> /\ gcd' = FALSE

\* A call of the code under test panicked: no behaviour of the specification.
Panicked(e) == Req(SetOf(e.tg), FALSE, "panic", e.msg) /\ UNCHANGED apiVars

Step(e) ==
  CASE e.e = "reset"  -> Reset(e)
    [] e.e = "op"     -> Apply(e.op, e.a, e.p, e.h, e.o, e.st)
    [] e.e = "row"    -> Row(e.op, e.a, e.pos, e.over, e.p, e.r, e.os, e.st)
    [] e.e = "const"  -> Constant(e.f, e.c, e.h, e.o, e.st)
    [] e.e = "create" -> Create(e.lv, e.a, e.h, e.o, e.st)
    [] e.e = "mk"     -> Mk(e.f, e.tab, SetOf(e.tg), e.h, e.o, e.st)
    [] e.e = "mpc"    -> MinSolH(e.w, e.a, e.r = 1, e.cs, e.items, e.m, e.st)
    [] e.e = "exth"   -> QExtractH(e.h, e.sel, e.items, e.n, e.m)
    [] e.e = "var"    -> DefVar(e.nm, e.u, e.k, e.h, e.o, e.vo, e.nv, e.st)
    [] e.e = "sets"   -> FromSets(e.sets, e.vo, e.h, e.o, e.st)
    [] e.e = "clone"  -> Clone(e.a, e.h, e.o)
    [] e.e = "child"  -> Child(e.a, e.i, e.h, e.o)
    [] e.e = "drop"   -> Drop(SetOf(e.l))
    [] e.e = "clear"  -> ClearCache(e.cs, e.st)
    [] e.e = "gc"     -> Collect(SetOf(e.f), e.st, e.reach)
    [] e.e = "mass"   -> Mass(e.req, e.nt, e.ids, e.again, e.red, e.bad, e.perm, e.live, e.grew)
    [] e.e = "flood"  -> Flood(SetOf(e.f), e.hi, e.falls, e.x, e.st)
    [] e.e = "thr"    -> Threshold(SetOf(e.f), e.t)
    [] e.e = "chk"    -> Stable(e.l, SetOf(e.tg))
    [] e.e = "eqs"    -> Equalities(e.l)
    [] e.e = "mp"     -> MinSol(e.w, e.a, e.r = 1, e.h, e.o, e.st)
    [] e.e = "rpn"    -> RpnCall(e.toks, e.ok = 1, e.vo, e.h, e.o, e.st)
    [] e.e = "iv"     -> QInterval(e.h, e.bm = 1, e.pt = 1, e.ws, e.sel, e.r)
    [] e.e = "prob"   -> QProb(e.h, e.w, e.hw, e.sel, e.m, e.r)
    [] e.e = "bm"     -> QBirnbaum(e.h, e.w, e.hw, e.sel, e.m, e.r)
    [] e.e = "cnt"    -> QCount(e.h, e.sel, e.m, e.r, e.len)
    [] e.e = "ext"    -> QExtract(e.h, e.sel, e.items, e.rev = 1)
    [] e.e = "garb"   -> Garbage(e.st)
    [] e.e = "lab"    -> QLabels(e.h, e.r, e.rev = 1, e.cut = 1, e.vars)
    [] e.e = "lvl"    -> QLevel(e.h, e.v, e.items, e.rev = 1)
    [] e.e = "dot"    -> QDot(e.h, e.n, e.ed, e.junk)
    [] e.e = "shared" -> QShared(e.f, e.n)
    [] e.e = "snap"   -> QSnap(e.h, e.n, e.sz, e.fl)
    [] e.e = "wc"     -> QWarmCold(e.h, e.o, e.st)
    [] e.e = "same"   -> QSame(e.a, e.b)
    [] e.e = "panic"  -> Panicked(e)

TraceNext ==
  /\ l <= TraceLen
  /\ l' = l + 1
  /\ Step(Trace[l])

TraceSpec == TraceInit /\ [][TraceNext]_<<apiVars, l>>

TraceView == <<l, thr>>

TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = TraceLen
  \/ PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
