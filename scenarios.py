"""What each check runs: harness workloads (shards) and exhaustive models."""

BASE = "op=30 build=3 const=2 drop=3"
# per property: list of (kind, weights, shards quick, episodes per shard)
W = {
    "C01": [("bss", BASE + " clone=1 child=2 gc=1 thr=1 clear=1 maxpts=32", 3, 60),
            ("bdd", BASE + " child=1 gc=1 clear=1 maxpts=32", 2, 60),
            ("bdd", BASE + " child=1 gc=1 clear=1 undet=6 maxpts=32", 1, 60),
            ("bss", BASE + " steps=120 keep=40 maxpts=64 thr=1", 1, 16),
            ("bdd", BASE + " steps=120 keep=40 maxpts=64", 1, 16)],
    "C02": [(k, BASE + " redo=6 gc=2 thr=1 clear=1 clone=1 child=2 eqs=3 mp=3 rpn=3 sets=3 var=1 mono=30 maxpts=24", 1, 50)
            for k in ("bss", "zw", "bdd", "zdd", "mdd", "mtmdd", "mtmdd2", "zmdd", "mss")],
    "C03": [(k, BASE + " gc=5 thr=2 clone=3 child=2 chk=2 storm=1 idem=3 mp=2 rpn=2 sets=2 var=1 mono=30 drop=5 maxpts=24", 1, 50)
            for k in ("bss", "zw", "bdd", "zdd", "mdd", "mtmdd", "mtmdd2", "zmdd", "mss")] +
           [(k, "op=10 build=1 drop=2 churn=8 stale=10 child=3 clone=1 mp=1 mono=30 steps=40 keep=16 maxpts=24", 2, 50)
            for k in ("bss", "zw", "bdd", "zdd", "mdd", "mtmdd", "mtmdd2", "zmdd", "mss")],
    "C04": [(k, BASE + " gc=5 gcchk=0 thr=2 clone=3 child=3 storm=1 mp=2 rpn=2 sets=2 var=1 clear=1 mono=30 drop=5 maxpts=16", 1, 50)
            for k in ("bss", "zw", "bdd", "zdd", "mdd", "mtmdd", "mtmdd2", "zmdd", "mss")] +
           [(k, "op=20 sop=16 const=2 build=12 zbuild=1 drop=2 var=6 thr=1 thrbig=1 nbuild=1 steps=200 keep=8 maxpts=64 upfront=100", 2, 8)
            for k in ("bss", "zw", "mss")],
    "C05": [("zw", BASE + " sets=4 var=2 gc=1 thr=1 ext=2 maxpts=32", 3, 60),
            ("zdd", BASE + " gc=1 clear=1 maxpts=32", 3, 60),
            ("zdd", BASE + " steps=100 keep=30 maxpts=64", 1, 12),
            ("bss", BASE + " mp=6 ext=2 mono=80 maxpts=32", 1, 40)],
    "C06": [("mdd", BASE + " gc=1 clear=1 maxpts=36", 3, 60),
            ("mdd", BASE + " gc=1 undet=15 maxpts=36", 2, 60),
            ("mss", BASE + " gc=1 thr=1 undet=8 boolpct=75 maxpts=36", 2, 50),
            ("mtmdd2", BASE + " gc=1 boolpct=75 maxpts=36", 1, 50)],
    "C07": [("mtmdd", BASE + " gc=1 clear=1 maxpts=36", 2, 60),
            ("mtmdd", BASE + " gc=1 undet=12 maxpts=36 scale=1", 2, 60),
            ("mss", BASE + " gc=1 thr=1 undet=6 boolpct=15 maxpts=36", 2, 50),
            ("mtmdd2", BASE + " gc=1 undet=6 boolpct=15 maxpts=36 scale=1", 2, 50)],
    "C08": [("mtmdd2", BASE + " gc=1 maxpts=36", 2, 60),
            ("mtmdd2", BASE + " gc=1 undet=5 mixed=15 scale=1 maxpts=36", 2, 60),
            ("mss", BASE + " gc=1 thr=1 mixed=10 maxpts=36", 3, 60)],
    "C09": [("bss", "op=6 mp=20 build=4 drop=3 gc=1 thr=1 ext=3 mono=70 maxpts=32", 5, 60),
            ("bss", "op=6 mp=20 build=4 drop=3 var=3 upfront=10 mono=70 maxpts=64", 2, 24)],
    "C10": [("mss", "op=4 mp=20 build=4 drop=3 gc=1 thr=1 ext=4 lvl=8 lab=2 mono=80 maxpts=36", 5, 50),
            ("mss", "op=4 mp=20 build=4 drop=3 var=3 upfront=10 ext=4 lvl=8 lab=3 mono=80 maxpts=48", 2, 30)],
    "C11": [("bss", "op=10 build=6 drop=3 prob=12 bm=12 gc=1 rpn=2 maxpts=32", 5, 50),
            ("bss", "op=10 build=6 drop=3 prob=12 bm=12 var=3 upfront=10 maxpts=64", 2, 25)],
    "C12": [("mss", "op=10 build=6 drop=3 prob=12 bm=12 gc=1 rpn=2 undet=4 maxpts=36", 5, 45),
            ("mss", "op=10 build=6 drop=3 prob=12 bm=12 var=3 upfront=10 maxpts=48", 2, 25)],
    "C13": [("bss", "op=12 build=6 drop=3 cnt=10 ext=10 gc=2 thr=1 mp=2 fill=25 maxpts=32", 4, 50),
            ("bss", "op=12 build=6 drop=3 cnt=10 ext=10 var=2 upfront=20 fill=50 maxpts=32", 2, 40),
            ("zw", "op=12 sets=6 drop=3 cnt=10 ext=10 gc=2 thr=1 var=2 maxpts=32", 2, 50)],
    "C14": [("mss", "op=12 build=6 drop=3 cnt=10 ext=10 gc=2 thr=1 undet=5 maxpts=36", 3, 45),
            ("mss", "op=12 build=6 drop=3 cnt=10 ext=10 var=2 upfront=20 fill=50 maxpts=36", 2, 40),
            ("mss", "op=12 build=6 drop=3 mp=10 cnt=8 ext=8 lab=5 gc=2 mono=80 maxpts=36", 2, 40)],
    "C15": [("bss", "op=3 rpn=25 drop=3 gc=1 thr=1 upfront=30 chk=1 nbuild=0 maxpts=32", 3, 60),
            ("mss", "op=3 rpn=25 drop=3 gc=1 thr=1 upfront=30 chk=1 nbuild=0 maxpts=36", 4, 60)],
    "C16": [("zmdd", BASE + " gc=2 clear=1 maxpts=36 scale=1", 3, 60),
            ("mss", "op=12 yop=14 mp=14 build=3 drop=2 ext=5 lab=4 cnt=4 gc=2 mono=85 maxpts=36", 4, 45),
            ("mss", "op=12 yop=14 mp=14 build=3 drop=2 var=4 upfront=0 ext=5 lab=4 cnt=4 gc=1 mono=85 maxpts=48", 2, 40)],
    "C17": [(k, BASE + " wc=40 clear=1 gc=3 thr=1 maxpts=24", 1, 45)
            for k in ("bss", "bdd", "zdd", "mdd", "mtmdd", "mtmdd2", "zmdd", "mss")],
    "C18": [("bss", "op=6 var=20 rpn=8 drop=5 gc=3 thr=2 mp=1 upfront=0 fill=60 nbuild=0 maxpts=64", 3, 60),
            ("mss", "op=6 var=20 rpn=8 drop=5 gc=3 thr=2 mp=1 upfront=0 fill=60 nbuild=0 maxpts=48", 3, 60),
            ("zw", "op=6 var=20 sets=5 drop=5 gc=3 thr=2 upfront=0 fill=60 maxpts=64", 1, 60)],
    "C19": [(k, BASE + " dot=14 gc=1 mp=4 mono=50 undet=5 maxpts=24", 1, 45)
            for k in ("bss", "zw", "bdd", "zdd", "mdd", "mtmdd", "mtmdd2", "zmdd", "mss")],
    "C20": [(k, BASE + " snap=14 child=6 gc=2 thr=1 mp=3 rpn=2 mono=40 undet=3 maxpts=24", 1, 45)
            for k in ("bss", "zw", "bdd", "zdd", "mdd", "mtmdd", "mtmdd2", "zmdd", "mss")],
}
NOUNDET = ("bss", "zdd", "zw")
def _forest(k, tmo=1500):
    return dict(name="Forest" + k, module="ForestMC", cfg="Forest%s.cfg" % k, timeout=tmo)


MODELS = {
    "C02": [_forest("Z")], "C03": [_forest("Z"), _forest("Y")], "C04": [_forest("Z")], "C20": [_forest("Z")],
    "C17": [_forest("Z"),
            dict(name="CacheImpl", module="CacheImpl", cfg="CacheImpl.cfg")],
}


def _lem(*names):
    out = []
    for n in names:
        mod = {"S": "DDLemmaSumMC", "R": "DDLemmaRpn", "D": "DDLemmaDotMC"}.get(n[0], "DDLemmaMC")
        if n in ("S", "D"):
            raise ValueError(n)
        out.append(dict(name="Lem" + n, module=mod, cfg="Lem%s.cfg" % n, timeout=1500))
    return out


# the specification against itself (see DDLemma*.tla)
for p_, l_ in {"C01": ("P22",), "C02": ("S1", "S2"), "C03": (), "C04": ("B3s", "S2", "S5"), "C05": ("P22",), "C06": ("PV22",), "C07": ("PN22", "PV22"),
               "C08": ("PN22",), "C09": ("M4", "S1", "S2"), "C10": ("M33", "M232", "S3", "S4"), "C11": ("B3p", "S1"), "C12": ("V23p", "S4"),
               "C13": ("B3c", "S1", "S6"), "C14": ("V23c", "U22c", "S3"), "C15": ("Rbss", "Rmss"), "C16": ("PV22",), "C18": ("S5",),
               "C19": ("Db", "Dz", "Dv", "Dy"), "C20": ("V23s", "Db", "Dz", "Dv", "Dy")}.items():
    MODELS[p_] = MODELS.get(p_, []) + _lem(*l_)
THOROUGH_MODELS = {p: [_forest(k) for k in ("B", "M", "I", "ZM", "B6", "Z3")] for p in ("C03", "C04", "C17")}
THOROUGH_MODELS.update({p: [_forest(k) for k in ("B", "I", "ZM")] for p in ("C02", "C20")})
for p_, l_ in {"C01": ("P3",), "C05": ("P3",), "C04": ("V23s", "U22", "S1", "S3", "S4", "S6"), "C20": ("B3s", "U22", "S4"), "C09": ("S6",), "C10": ("S2", "S5"),
               "C12": ("S3", "S5"), "C11": ("S2",), "C13": ("S2",), "C14": ("S4", "S5")}.items():
    THOROUGH_MODELS[p_] = THOROUGH_MODELS.get(p_, []) + _lem(*l_)
from collections import defaultdict
EXTRA = defaultdict(list)          # prop -> list of dicts {name, mode, args, module, reps, ...}


def _sum(kind, w, eps=14, reps=1, **kw):
    """tens of variables: a few explicit, the others hidden behind a weighted sum"""
    return dict(name="sum-" + kind, mode="sum", args="kind=%s episodes=%d %s" % (kind, eps, w), reps=reps, **kw)


SB = "op=20 build=6 const=1 drop=3 wide=3 steps=30 keep=10 "
ALLK = ("bss", "bdd", "zdd", "mdd", "mtmdd", "mtmdd2", "zmdd", "mss")
EXTRA["C01"] = [_sum(k, SB + "gc=1 wide=6 maxhid=50", 14, 2) for k in ("bss", "bdd")]
EXTRA["C02"] = [_sum(k, SB + "redo=6 gc=2 thr=1 clear=1 eqs=3 mp=2 maxhid=30", 8) for k in ALLK]
EXTRA["C03"] = [_sum(k, SB + "gc=5 thr=2 clone=2 chk=2 stale=5 churn=4 drop=5 mp=2 maxhid=30", 8) for k in ALLK]
EXTRA["C04"] = [_sum(k, SB + "gc=5 gcchk=0 thr=2 clone=2 drop=5 mp=1 maxhid=20", 6) for k in ALLK]
EXTRA["C05"] = [_sum("zdd", SB + "gc=1 maxhid=50", 14, 2)]
EXTRA["C06"] = [_sum("mdd", SB + "gc=1", 14), _sum("mss", SB + "gc=1 boolpct=75", 12)]
EXTRA["C07"] = [_sum("mtmdd", SB + "gc=1 undet=6", 14), _sum("mss", SB + "gc=1 wide=8 boolpct=15", 12)]
EXTRA["C08"] = [_sum("mtmdd2", SB + "gc=1 mixed=10", 12), _sum("mss", SB + "gc=1 mixed=6", 12)]
EXTRA["C09"] = [_sum("bss", "op=4 mp=20 build=3 wide=3 drop=3 gc=1 thr=1 mono=70 cap=85 classes=%d maxhid=45 steps=30 keep=8" % c, 12, 2)
                for c in (2, 5)]
EXTRA["C10"] = [_sum("mss", "op=4 mp=20 build=3 wide=3 drop=3 gc=1 thr=1 mono=80 cap=85 classes=%d maxhid=30 steps=30 keep=8" % c, 10, 2)
                for c in (2, 4)]
EXTRA["C11"] = [_sum("bss", "op=8 build=5 wide=2 drop=3 prob=10 bm=8 gc=1 steps=30 keep=8 maxhid=40", 10, 2)]
EXTRA["C12"] = [_sum("mss", "op=8 build=5 wide=2 drop=3 prob=10 bm=8 gc=1 steps=30 keep=8 maxhid=25", 8, 2)]
EXTRA["C13"] = [_sum("bss", "op=8 build=5 wide=2 drop=3 cnt=12 ext=6 gc=1 steps=30 keep=8 maxhid=50", 14, 2)]
EXTRA["C14"] = [_sum("mss", "op=8 build=5 wide=2 drop=3 cnt=12 ext=6 gc=1 steps=30 keep=8 maxhid=40", 12, 2)]
EXTRA["C15"] = [_sum(k, "op=8 build=3 rpn=12 drop=3 steps=30 keep=10 maxexp=3 maxhid=20", 10) for k in ("bss", "mss")]
EXTRA["C16"] = [_sum("zmdd", SB + "gc=2 maxhid=30", 12)]
EXTRA["C17"] = [_sum(k, SB + "wc=40 clear=1 gc=2 maxhid=30", 8) for k in ALLK]
EXTRA["C17"] += [dict(name="cache", mode="cache", args="episodes=3 rounds=14", module="Cache", reps=2, reps_thorough=10),
                 dict(name="cachebig", mode="cache", args="episodes=2 rounds=12 big=1", module="Cache", reps=2, reps_thorough=10)]
EXTRA["C18"] = [_sum(k, "op=4 var=20 drop=3 gc=2 thr=1 steps=30 keep=10 maxhid=50", 14) for k in ("bss", "mss")]
EXTRA["C20"] = [_sum(k, SB + "snap=14 gc=2 maxhid=25", 10) for k in ALLK]


def _huge(kind, w="clear=1", **kw):
    """diagrams of 10^4..10^5 nodes, observed at sampled assignments"""
    return dict(name="huge-" + kind, mode="huge", timeout=40, args="kind=%s %s" % (kind, w), **kw)


for p_, ks_ in {"C01": ("bdd", "bss"), "C02": ALLK, "C03": ALLK, "C04": ALLK, "C05": ("zdd",), "C06": ("mdd", "mss"),
                "C07": ("mtmdd", "mss"), "C08": ("mtmdd2", "mss"), "C16": ("zmdd",), "C17": ALLK}.items():
    EXTRA[p_] += [_huge(k) for k in ks_]
for p_, ks_ in {"C01": ("bdd",), "C03": ("mtmdd",), "C05": ("zdd",), "C06": ("mdd",), "C07": ("mtmdd",), "C08": ("mtmdd2",), "C16": ("zmdd",),
                "C17": ("bdd", "zdd", "mdd")}.items():
    EXTRA[p_] += [dict(_huge(k, "clear=1 fill=1200000"), name="hugefill-" + k, timeout=60) for k in ks_]
# garbage until the automatic collector runs: at a small threshold, and at the default one (which only
# families of path / cut vectors ever meet: their manager has no setter)
for p_ in ("C03", "C04"):
    EXTRA[p_] += [dict(name="flood-" + k, mode="walk", reps=2, reps_thorough=24,
                       args="kind=%s episodes=25 flood=5 op=20 build=3 const=1 drop=3 clone=1 child=1 mp=4 sets=3 rpn=2 mono=50 gc=2 thr=1 maxpts=24" % k)
                  for k in ("bss", "zw", "mss")]
    EXTRA[p_] += [dict(name="floodbig-mss", mode="walk", reps=2, reps_thorough=12, args="kind=mss episodes=3 flood=3 floodbig=1 op=20 build=2 drop=2 idem=2 "
                       "clone=3 mp=12 mono=90 gc=1 ext=2 lab=1 steps=30 keep=16 maxpts=%s" % ("36" if p_ == "C03" else "24"))]
EXTRA["C16"] += [dict(name="floodbig-mss", mode="walk", reps=1, reps_thorough=6, args="kind=mss episodes=3 flood=3 floodbig=1 op=20 build=2 drop=2 "
                      "clone=3 mp=12 mono=90 ext=4 lab=2 cnt=2 steps=40 keep=16 maxpts=27")]
# expressions that name new variables while the threshold is within reach
for p_ in ("C03", "C15"):
    EXTRA[p_] += [dict(name="fresh-" + k, mode="fresh", reps=2, reps_thorough=20, args="kind=%s episodes=80" % k) for k in ("bss", "mss")]
# node stores of more than a million nodes
for p_ in ("C02", "C03", "C04", "C20"):
    EXTRA[p_] += [dict(name="mass-" + k, mode="mass", reps_thorough=6, timeout=60, args="kind=%s" % k)
                  for k in ("bdd", "zdd", "mdd", "mtmdd", "mtmdd2", "zmdd")]
# variables with hundreds of states, and variables with a single one
def _states(kind, w, eps=8, **kw):
    return dict(name="states-" + kind, mode="walk", args="kind=%s episodes=%d %s" % (kind, eps, w), **kw)


for p_, ks_, w_ in [("C02", ("mdd", "mtmdd", "mtmdd2", "zmdd", "mss"), "op=12 build=5 redo=5 eqs=3 drop=3 gc=1"),
                    ("C06", ("mdd", "mss"), "op=14 build=6 drop=3 gc=1 wc=10 boolpct=75"),
                    ("C07", ("mtmdd", "mss"), "op=14 build=6 drop=3 gc=1 wc=10 boolpct=15"),
                    ("C08", ("mtmdd2", "mss"), "op=14 build=6 drop=3 gc=1 mixed=5"),
                    ("C10", ("mss",), "op=6 build=4 drop=3 gc=1 mp=14 mono=70 lvl=3"),
                    ("C12", ("mss",), "op=8 build=5 drop=3 gc=1 prob=10 bm=10"),
                    ("C14", ("mss",), "op=8 build=5 drop=3 gc=1 cnt=10 ext=10"),
                    ("C15", ("mss",), "op=4 build=3 drop=3 gc=1 rpn=12"),
                    ("C16", ("zmdd", "mss"), "op=14 build=5 drop=3 gc=1 mp=4 mono=70 ext=3"),
                    ("C18", ("mss",), "op=4 var=14 drop=3 gc=2 thr=1 rpn=3"),
                    ("C19", ("mdd", "mtmdd", "mtmdd2", "zmdd", "mss"), "op=6 build=6 drop=3 dot=10"),
                    ("C20", ("mdd", "mtmdd", "mtmdd2", "zmdd", "mss"), "op=8 build=6 drop=3 gc=1 snap=8 child=4")]:
    for k_ in ks_:
        EXTRA[p_] += [_states(k_, w_ + " bigk=100 steps=25 keep=10")]
        if k_ == "mss":
            EXTRA[p_] += [dict(_states(k_, w_ + " single=85 maxpts=20", 20), name="single-mss")]
TALL = "tall=1 classes=3 maxexp=1 steps=25 keep=8 "
for p_, ks_, w_ in [("C01", ("bss",), "op=10 build=6 const=1 drop=3 gc=1 wide=6"),
                    ("C02", ("bss", "zdd"), "op=10 build=6 const=1 drop=3 gc=1 wide=6 redo=4 eqs=2"),
                    ("C05", ("zdd",), "op=10 build=6 drop=3 gc=1"),
                    ("C06", ("mdd",), "op=10 build=6 drop=3 gc=1"),
                    ("C07", ("mss",), "op=10 build=6 drop=3 gc=1 wide=6 boolpct=15"),
                    ("C08", ("mtmdd2",), "op=10 build=6 drop=3 gc=1 mixed=6"),
                    ("C09", ("bss",), "op=4 mp=10 build=4 wide=3 drop=3 gc=1 mono=80 cap=85"),
                    ("C10", ("mss",), "op=4 mp=10 build=4 wide=3 drop=3 gc=1 mono=80 cap=85"),
                    ("C11", ("bss",), "op=6 build=5 wide=3 drop=3 prob=10"),
                    ("C12", ("mss",), "op=6 build=5 wide=3 drop=3 prob=10"),
                    ("C13", ("bss",), "op=6 build=5 wide=3 drop=3 cnt=14"),
                    ("C14", ("mss",), "op=6 build=5 wide=3 drop=3 cnt=14"),
                    ("C16", ("zmdd",), "op=10 build=6 drop=3 gc=1"),
                    ("C18", ("bss", "mss"), "op=2 var=20 drop=3 gc=1"),
                    ("C20", ("bss", "zdd", "mdd"), "op=6 build=5 drop=3 gc=1 snap=6")]:
    EXTRA[p_] += [_sum(k, TALL + w_, 2 if p_ in ("C08", "C09", "C10") else 3) for k in ks_]

def _big(kind, w, eps=5, **kw):
    """stores that already hold tens of thousands of nodes nobody reaches: ids go beyond 2^16 and 2^18"""
    return dict(name="big-" + kind, mode="sum", args="kind=%s episodes=%d garb=70 garbage=1 steps=30 keep=10 %s" % (kind, eps, w), reps=1, reps_thorough=8, **kw)


for p_, ks_, w_ in [("C01", ("bdd", "bss"), "op=20 build=6 drop=3 wide=3 gc=1 maxhid=30"),
                    ("C02", ALLK, "op=20 build=6 drop=3 wide=3 redo=6 eqs=3 gc=1 maxhid=25"),
                    ("C03", ALLK, "op=20 build=6 drop=5 wide=3 gc=4 thr=2 clone=2 chk=2 stale=4 maxhid=25"),
                    ("C04", ALLK, "op=20 build=6 drop=5 wide=3 gc=4 gcchk=0 thr=2 clone=2 maxhid=20"),
                    ("C05", ("zdd",), "op=20 build=6 drop=3 wide=3 gc=1 maxhid=30"),
                    ("C06", ("mdd", "mss"), "op=20 build=6 drop=3 wide=3 gc=1 boolpct=75"),
                    ("C07", ("mtmdd", "mss"), "op=20 build=6 drop=3 wide=3 gc=1 boolpct=15"),
                    ("C08", ("mtmdd2", "mss"), "op=20 build=6 drop=3 wide=3 gc=1 mixed=8"),
                    ("C09", ("bss",), "op=4 mp=20 build=3 wide=3 drop=3 gc=1 mono=70 cap=85 classes=5 maxhid=30"),
                    ("C10", ("mss",), "op=4 mp=20 build=3 wide=3 drop=3 gc=1 mono=80 cap=85 classes=2 maxhid=20"),
                    ("C11", ("bss",), "op=8 build=5 wide=2 drop=3 prob=10 bm=8 maxhid=25"),
                    ("C12", ("mss",), "op=8 build=5 wide=2 drop=3 prob=10 bm=8 maxhid=20"),
                    ("C13", ("bss",), "op=8 build=5 wide=2 drop=3 cnt=12 ext=4 maxhid=30"),
                    ("C14", ("mss",), "op=8 build=5 wide=2 drop=3 cnt=12 ext=4 maxhid=20"),
                    ("C15", ("bss", "mss"), "op=4 build=3 rpn=12 drop=3 maxexp=3 maxhid=20"),
                    ("C16", ("zmdd",), "op=20 build=6 drop=3 wide=3 gc=2 maxhid=25"),
                    ("C17", ("bdd", "zdd", "mdd", "mtmdd"), "op=20 build=6 drop=3 wc=40 clear=1 gc=2 maxhid=20"),
                    ("C18", ("bss", "mss"), "op=4 var=20 drop=3 gc=2 thr=1 maxhid=30"),
                    ("C20", ALLK, "op=12 build=5 drop=3 gc=2 snap=12 maxhid=20")]:
    EXTRA[p_] += [_big(k, w_, 4 if p_ in ("C02", "C03", "C04", "C20") else 6) for k in ks_]

# histories generated by TLC from the engine model (ForestGen) and replayed: config -> (operators to probe with, arities)
SCHEDULES = {"GenB": ("and,xor", "2,2"), "GenI": ("ite", "2,2"), "GenZ": ("union,diff,intersect", "2,2"),
             "GenM": ("and,xor", "2,3"), "GenV": ("and,or", "2,3"), "GenY": ("diff,intersect", "2,3")}


def _script(cfg, kind, count=160, **kw):
    ops, ar = SCHEDULES[cfg]
    return dict(name="script-%s-%s" % (cfg, kind), mode="script", sched=cfg, reps_thorough=12, window=count,
                args="kind=%s ops=%s ar=%s %s" % (kind, ops, ar, kw.get("w", "")))


ALLSCRIPT = [("GenB", "bdd"), ("GenB", "bss"), ("GenI", "bdd"), ("GenI", "bss"), ("GenI", "mdd"), ("GenZ", "zdd"),
             ("GenZ", "zw"), ("GenM", "mdd"), ("GenM", "mss"), ("GenV", "mtmdd"), ("GenM", "mtmdd2"), ("GenY", "zmdd")]
for p_, l_, n_ in [("C01", [("GenB", "bdd"), ("GenB", "bss"), ("GenI", "bdd"), ("GenI", "bss")], 250),
                   ("C02", ALLSCRIPT, 100), ("C03", ALLSCRIPT, 200), ("C04", ALLSCRIPT, 150), ("C20", ALLSCRIPT, 60),
                   ("C05", [("GenZ", "zdd"), ("GenZ", "zw")], 300),
                   ("C06", [("GenM", "mdd"), ("GenM", "mss"), ("GenI", "mdd"), ("GenI", "mss")], 200),
                   ("C07", [("GenV", "mtmdd")], 300), ("C16", [("GenY", "zmdd")], 300)]:
    EXTRA[p_] += [_script(c_, k_, n_) for c_, k_ in l_]
EXTRA["C17"] += [_script(c_, k_, 80, w="wc=40") for c_, k_ in ALLSCRIPT if k_ != "zw"]

def _exh(kind, w, reps=1, **kw):
    """enumerated small universes"""
    return dict(name="exh-" + kind, mode="exh", args="kind=%s %s" % (kind, w), reps=reps, **kw)


def _win(kind, w, count, reps=1):
    return dict(name="exh-" + kind, mode="exh", window=count, reps=reps, args="kind=%s %s" % (kind, w))


R = "what=rows "
EXTRA["C01"] += [_exh("bdd", R + "ar=2,2,2 rows=350", 2), _exh("bss", R + "ar=2,2,2 rows=350", 2),
                 _exh("bdd", R + "ar=2,2 rows=300 other=50 episodes=2"), _exh("bss", R + "ar=2,2,2,2 maxf=220 rows=250")]
EXTRA["C05"] += [_exh("zdd", R + "ar=2,2,2 rows=350", 2), _exh("zw", R + "ar=2,2,2 rows=350", 2),
                 _exh("zdd", R + "ar=2,2,2,2 maxf=220 rows=250")]
EXTRA["C06"] += [_exh("mdd", R + "ar=2,3 rows=500 episodes=2", 2), _exh("mdd", R + "ar=3,3 maxf=250 rows=250"),
                 _exh("mdd", R + "ar=2,2 b=0,1,U rows=400"), _exh("mss", R + "ar=2,3 forest=b rows=400"),
                 _exh("mss", R + "ar=2,2 forest=b b=0,1,U maxf=90 rows=250"), _exh("mtmdd2", R + "ar=2,3 forest=b rows=400")]
EXTRA["C07"] += [_exh("mtmdd", R + "ar=2,2 v=0,2,-3,U rows=250", 2), _exh("mss", R + "ar=2,2 forest=v v=0,1,-2,5 maxf=200 rows=300"),
                 _exh("mtmdd", R + "ar=2,3 v=0,1,-7,4,U maxf=200 rows=250"), _exh("mtmdd2", R + "ar=2,2 v=0,3,-2,U forest=v maxf=200 rows=300")]
EXTRA["C08"] += [_exh("mtmdd2", R + "ar=2,2 v=0,2,-1 maxf=90 rows=500 other=50", 2), _exh("mss", R + "ar=2,2 v=0,1,4 maxf=90 rows=500 other=50", 2),
                 _exh("mtmdd2", R + "ar=2,3 v=0,2,-1,U maxf=100 rows=400 other=60 mixed=5"), _exh("mss", R + "ar=3,2 v=0,1,2 maxf=100 rows=400 other=60")]
EXTRA["C16"] += [_exh("zmdd", R + "ar=2,2 y=U,1,2 rows=200", 2), _exh("zmdd", R + "ar=2,3 y=U,0,1,5 maxf=250 rows=250", 2)]
EXTRA["C02"] += [_exh(k, R + a + " rows=120") for k, a in
                 [("bdd", "ar=2,2,2"), ("bss", "ar=2,2,2"), ("zdd", "ar=2,2,2"), ("zw", "ar=2,2,2"), ("mdd", "ar=2,3"), ("mtmdd", "ar=2,2 v=0,1,2,U maxf=150"),
                  ("mtmdd2", "ar=2,2 maxf=90"), ("mss", "ar=2,2 maxf=90"), ("zmdd", "ar=2,2")]]
EXTRA["C20"] += [_exh(k, R + a + " rows=80") for k, a in
                 [("bdd", "ar=2,2,2"), ("zdd", "ar=2,2,2"), ("mdd", "ar=2,3"), ("mtmdd2", "ar=2,2 maxf=90"), ("zmdd", "ar=2,2")]]
EXTRA["C09"] += [_exh("bss", "what=mono ar=2,2,2,2 ext=40 gc=1"), _win("bss", "what=mono ar=2,2,2,2,2 ext=20 gc=1", 700, 4),
                 _exh("bss", "what=query_mp ar=2,2,2 gc=1")]
EXTRA["C10"] += [_win("mss", "what=mono %s gc=1 ext=30 lvl=30" % a, 400, r) for a, r in
                 [("forest=v ar=3,3", 2), ("forest=v ar=2,3 v=0,3", 1), ("forest=v ar=2,2,3 v=0,2", 2), ("forest=b ar=2,3,2", 1), ("forest=b ar=3,3,3", 2), ("forest=v ar=2,2,2 v=0,4", 1)]]
EXTRA["C11"] += [_win("bss", "what=query ar=2,2,2 prob=45 bm=35 iv=30", 256, 2), _win("bss", "what=query ar=2,2,2,2 prob=45 bm=35 iv=30 maxf=200", 200, 2)]
EXTRA["C12"] += [_win("mss", "what=query ar=2,3 forest=v v=0,1,2 maxf=300 prob=45 bm=35 iv=30", 200, 2),
                 _win("mss", "what=query ar=2,3 forest=b b=0,1,U maxf=300 prob=45 bm=35 iv=30", 150, 1),
                 _win("mss", "what=query ar=3,2,2 forest=v v=0,1,-1,U maxf=300 prob=45 bm=35 iv=30", 150, 1)]
EXTRA["C13"] += [_win("bss", "what=query ar=2,2,2 cnt=100 ext=100", 256), _win("zw", "what=query ar=2,2,2 cnt=100 ext=100", 256),
                 _win("bss", "what=query ar=2,2,2,2 cnt=100 ext=100 maxf=300", 300), _win("zw", "what=query ar=2,2,2,2 cnt=100 ext=100 maxf=300", 300)]
EXTRA["C14"] += [_win("mss", "what=query ar=%s cnt=100 ext=100 maxf=400" % a, 300) for a in
                 ("2,3 forest=v", "2,2,2 forest=v v=0,1,-1,U", "3,3 forest=b", "2,3 forest=b b=0,1,U", "2,4,2 forest=v v=0,1,2,3")]
EXTRA["C19"] += [_win(k, "what=query dot=100 maxf=256 ar=" + a, 150) for k, a in
                 [("bdd", "2,2,2"), ("bss", "2,2,2"), ("zdd", "2,2,2"), ("zw", "2,2,2"), ("mdd", "2,3"), ("mtmdd", "2,2 v=0,1,U"), ("mtmdd2", "2,2 forest=v"),
                  ("mss", "2,3 forest=b b=0,1,U"), ("zmdd", "2,2"), ("mss", "2,3 forest=v v=0,1,U")]]
EXTRA["C20"] += [_win(k, "what=query snap=100 maxf=256 ar=" + a, 120) for k, a in
                 [("bdd", "2,2,2"), ("bss", "2,2,2"), ("zdd", "2,2,2"), ("zw", "2,2,2"), ("mdd", "2,3"), ("mtmdd", "2,2 v=0,1,U"), ("mtmdd2", "2,2 forest=v"),
                  ("mss", "2,3 forest=b b=0,1,U"), ("zmdd", "2,2"), ("mss", "2,3 forest=v v=0,1,U")]]

ASSUME = [
    "the TLA+ specification (DDSem, DDApi) states the intended meaning of each public call",
    "the harness reads diagrams back through public accessors (get_node, level, children)",
    "TLC explores the bounded constants of each model completely; recorded histories are samples",
]


def kv(s):
    return dict(x.split("=") for x in s.split())


def plan(prop, tier, seed):
    shards = []
    mult = 1 if tier == "quick" else 12
    for gi, (kind, w, n, ep) in enumerate(W.get(prop, [])):
        a = kv(w)
        if kind in NOUNDET:
            a.pop("undet", None)
        if kind == "mss":
            a.setdefault("single", "6")
        for i in range(n * mult):
            b = dict(a)
            if tier == "thorough" and i % 3 == 2:
                b["maxpts"] = str(int(b.get("maxpts", 32)) * 2)
                b["steps"] = str(int(b.get("steps", 40)) * 2)
                e = max(4, ep // 4)
            else:
                e = ep
            b.update(kind=kind, seed=str(seed * 100000 + gi * 1000 + i), episodes=str(e))
            shards.append({"name": "%s-%d-%d" % (kind, gi, i), "mode": "walk", "args": b})
    for xi, x in enumerate(EXTRA.get(prop, [])):
        if x.get("tier", "quick") == "thorough" and tier == "quick":
            continue
        reps = x.get("reps", 1) if tier == "quick" else x.get("reps_thorough", x.get("reps", 1) * 6)
        for i in range(reps):
            a = kv(x.get("args", ""))
            a["seed"] = str(seed * 100000 + 77000 + xi * 1000 + i)
            more = {}
            if "window" in x:
                a.update(perm=str(seed), **{"from": str(i * x["window"]), "count": str(x["window"])})
            if "sched" in x:
                more["sched"] = x["sched"]
            shards.append({**more, "name": "%s-x%d-%d" % (x["name"], xi, i), "mode": x["mode"], "args": a,
                           "module": x.get("module", "DDTrace"), "timeout": x.get("timeout", 240),
                           "xmx": x.get("xmx", "2g")})
    models = list(MODELS.get(prop, []))
    if tier == "thorough":
        models += THOROUGH_MODELS.get(prop, [])
    return {"shards": shards, "models": models, "assumptions": ASSUME}
