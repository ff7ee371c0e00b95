"""What each check explores: for every property the list of finite spaces (jobs) of the quick and of the thorough tier.

A job names a harness, how the code is compiled for it, and the space (family, bounds). check.py enumerates each completely."""

LIMIT = {"quick": 420, "thorough": 880}
SPECS = {}
JOBS = {}


def e2e(mode, family, cap, hybrid=0, prob=None, flavour="plain", prim=1, extra=(), **kw):
    a = ["--mode", mode, "--family", family] + (["--prob", prob] if prob else []) + list(extra)
    return dict(harness="e2e", cap=cap, hybrid=hybrid, flavour=flavour, prim=prim, args=a, **kw)


def sub(mode, cap, hybrid=0, extra=(), prim=1, flavour="plain", **kw):
    return dict(harness="sub", cap=cap, hybrid=hybrid, flavour=flavour, prim=prim, args=["--mode", mode] + [str(x) for x in extra], **kw)


def steps(mode, cap, hybrid=0, extra=(), flavour="plain", **kw):
    return dict(harness="steps", cap=cap, hybrid=hybrid, flavour=flavour, args=["--mode", mode] + [str(x) for x in extra], **kw)


def walk(judge, h, deep=False):
    """the search step by step on larger instances, with a set of tours that is followed through it"""
    J = []
    for n, a, st, lv in ((12, 4, 60, 1), (16, 4, 60, 1), (20, 4, 60, 1), (32, 3, 40, 1), (60, 2, 20, 1), (130, 1, 6, 2), (260, 1, 2, 2)):
        b = a + (2 if deep and n < 100 else 0)
        for k, f in enumerate(("20:50", "40:-9", "3:4")) if n < 100 else ((0, "20:50"),):
            q = ["--prob", ("alg:2:1", "fine:2:1", "zero")[k]] if h and n < 60 else []
            J.append(steps("walk", n + (4 if k == 2 and n < 60 else 0), h, ["--family", "plant:%d:%d:%d:%s:1" % (n, b, b, f), "--judge", judge, "--steps", st * (3 if deep and n < 100 else 1), "--level", lv] + q))
        if n < 60:
            J.append(steps("walk", n, h, ["--family", "circle:%d:%d:1:1" % (n, 3 * b), "--judge", judge, "--steps", st]))
    return [j for k, j in enumerate(J) if deep or j["cap"] < 100 or h == (0 if "130" in str(j["args"]) else 1)]


def prop(pid, explanation, level="model_checking", rule=None, assumptions=()):
    SPECS[pid] = {"level": level, "explanation": explanation, "assumptions": list(assumptions)}
    if rule:
        SPECS[pid]["rule"] = rule

    def deco(fn):
        JOBS[pid] = fn
        return fn
    return deco


def jobs(pid, tier):
    return JOBS[pid](tier == "thorough")


REAL = "The real code is run on every case of the listed finite spaces (no model in between); states are distinct observable outcomes, transitions are explored branch-and-bound nodes or operations, traces are executions of the real code. "
CLOCK = "The clock is replaced by a virtual one, so that the time limit is met only where the exploration puts it."

MODS = "5,7,11"


def alg(n, a=8, b=8, c=8, off=1, scale=1, mods=MODS):
    return "alg:%d:%d:%d:%d:%g:%s:%s" % (n, a, b, c, off, scale if isinstance(scale, str) else "%g" % scale, mods)


def large(mode, h, deep=False, sizes=(16, 20, 24, 30), extra=(), spare=0, **kw):
    """larger instances with a known optimum (planted tours, points on a circle), and by dynamic programming up to 18"""
    p = "alg:1:2" if h else None
    x = list(extra)
    J = []
    for n in sizes + ((40,) if deep else ()):
        q = 3000 if n <= 20 else 1500 if n <= 30 else 500
        for k, f in enumerate(("20:50", "40:-100", "10:200")):
            J.append(e2e(mode, "plant:%d:%d:%d:%s:1" % (n, 6 if deep else 4, 6 if deep else 4, f), n + spare, h, p if k == 0 else None, extra=["--polls", str(q)] + x, **kw))
        J.append(e2e(mode, "circle:%d:8:1:1" % n, n + spare, h, None, extra=["--polls", str(q)] + x, **kw))
    return J


def huge(mode, h, deep=False, extra=(), spare=0, polls="300", families=("plant:130:1:1:20:50:1", "circle:130:1:1:1"), **kw):
    """instances larger than any counter of a byte can count"""
    J = [e2e(mode, f, 130 + spare, h, "fine:1:1" if h and k == 0 else None, extra=["--polls", polls] + list(extra), **kw) for k, f in enumerate(families)]
    if deep or (h and spare == 0 and mode in ("opt", "report")):
        J.append(e2e(mode, families[0].replace("130", "260"), 260 + spare, h, "fine:1:1" if h else None, extra=["--polls", "540"] + list(extra), **kw))
    return J


# ------------------------------------------------------------------------------------------------ whole runs
@prop("P01", REAL + "Every complete graph with 3 to 6 cities over small alphabets of weights (ties, scales from 1e-3 to 1e5), and structured families with up to 14 cities; oracle: dynamic programming over subsets; with up to 260 cities instances with a planted optimum.", assumptions=[CLOCK])
def _(deep):
    J = []
    for h in (0, 1):
        J += [e2e("opt", "alpha:3:0.001,1,2,3,7,50000", 3, h),
              e2e("opt", "alpha:4:1,2,3,5,9" if not deep else "alpha:4:0.001,1,2,3,5,9,100", 4, h),
              e2e("opt", "alpha:5:1,2,4", 5, h),
              e2e("opt", "alpha:5:0.01,0.02,0.05", 5, h),
              e2e("opt", "alpha:5:1000,1001,90000", 5, h),
              e2e("opt", "alpha:6:1,2" if not deep else "alpha:6:1,2,4", 6, h),
              e2e("opt", alg(7), 7, h), e2e("opt", alg(8), 8, h), e2e("opt", alg(9), 9, h), e2e("opt", alg(10), 10, h),
              e2e("opt", "grid:5:3:3:1", 5, h), e2e("opt", alg(8, 6, 6, 4, 40, mods="97,397"), 8, h), e2e("opt", alg(9, 6, 6, 4, 100, mods="97,397"), 9, h, "fine:1:1" if h else None),
              e2e("opt", alg(5, 4, 4, 4, scale="1e39", mods="7,11"), 5, h), e2e("opt", alg(8, 4, 4, 4, scale="1e100"), 8, h), e2e("opt", "alpha:4:1e39,2e39,5e150", 4, h), e2e("opt", "alpha:4:1e-12,2e-12,1e-40,1", 4, h),
              e2e("opt", "circle:8:16:16:1", 8, h), e2e("opt", "circle:10:8:8:1", 10, h), e2e("opt", "cluster:9:16:1", 9, h),
              e2e("opt", alg(12, 4, 4, 4), 12, h, extra=["--polls", "6000"]),
              e2e("opt", alg(16, 2, 2, 2, mods="29,97"), 16, h, extra=["--polls", "6000"]), e2e("opt", "circle:18:3:3:1", 18, h, extra=["--polls", "3000"])] + large("opt", h, deep)
        J += [e2e("opt", "plant:%d:3:3:%s:1" % (n, f), n, h, "fine:1:2" if h and n == 60 else None, extra=["--polls", q]) for n, q in ((60, "300"), (100, "150")) for f in ("20:50", "1000:-3000")] + [e2e("opt", "circle:%d:8:1:1" % n, n, h, extra=["--polls", "150"]) for n in (60, 100)]
        if deep:
            J += [e2e("opt", alg(16, 4, 4, 4, mods="17,29,97"), 16, h, extra=["--polls", "20000"]), e2e("opt", alg(18, 2, 3, 3, mods="29,97"), 18, h, extra=["--polls", "20000"]), e2e("opt", "cluster:16:4:1", 16, h, extra=["--polls", "20000"]),
                  e2e("opt", alg(11), 11, h, extra=["--polls", "6000"]), e2e("opt", alg(12), 12, h, extra=["--polls", "6000"]),
                  e2e("opt", alg(13, 4, 4, 4), 13, h, extra=["--polls", "6000"]), e2e("opt", alg(14, 3, 3, 3), 14, h, extra=["--polls", "6000"]),
                  e2e("opt", alg(9, 12, 12, 8, 0.5, 0.25, "7,13,17,29"), 9, h), e2e("opt", alg(10, 8, 8, 8, 100, 31.7, "7,13,17"), 10, h),
                  e2e("opt", "grid:6:3:3:1", 6, h), e2e("opt", "grid:5:4:4:0.01", 5, h), e2e("opt", "circle:12:8:8:1", 12, h, extra=["--polls", "6000"]),
                  e2e("opt", "alpha:5:1,2,4,8", 5, h)]
    for h in (0, 1):
        J += huge("opt", h, deep)
    J += [e2e("opt", "plant:400:1:1:1000:30000:1", 400, 0, extra=["--polls", "402"]), e2e("opt", "plant:340:1:1:1000:30000:1", 340, 1, "fine:1:1", extra=["--polls", "20"])]
    return J


@prop("P02", REAL + "Every graph with 3 to 6 cities whose pairs are absent or carry one of the listed weights (weight 0 = no edge), and structured sparse families with up to 12 cities; oracle: dynamic programming over subsets, which also decides whether a tour exists.", assumptions=[CLOCK])
def _(deep):
    J = []
    for h in (0, 1):
        J += [e2e("opt", "alpha:3:0,1,2,5", 3, h), e2e("opt", "alpha:4:0,1,2,4,9", 4, h), e2e("opt", "alpha:5:0,1,3", 5, h),
              e2e("opt", "alpha:6:0,1", 6, h),
              e2e("opt", alg(7, off=0), 7, h), e2e("opt", alg(8, off=-1), 8, h), e2e("opt", alg(9, off=-1), 9, h), e2e("opt", alg(10, off=-2), 10, h),
              e2e("opt", "alpha:4:0,1e39,2e39,1e38", 4, h), e2e("opt", alg(7, 4, 4, 4, off=-1, scale="1e80"), 7, h),
              e2e("opt", alg(9, off=-3), 9, h), e2e("opt", alg(12, 4, 4, 4, off=-2), 12, h, extra=["--polls", "6000"]),
              e2e("opt", alg(16, 2, 2, 2, off=-9, mods="29,97"), 16, h, extra=["--polls", "6000"])] + [e2e("opt", "plant:%d:4:4:%s:1" % (n, f), n, h, extra=["--polls", "1500"]) for n in (16, 20, 30) for f in ("20:-8", "30:-60", "10:-20")]
        if deep:
            J += [e2e("opt", "alpha:6:0,1,3", 6, h), e2e("opt", "alpha:5:0,1,2,7", 5, h), e2e("opt", "alpha:7:0,1", 7, h),
                  e2e("opt", alg(11, off=-2), 11, h, extra=["--polls", "6000"]), e2e("opt", alg(12, off=-3), 12, h, extra=["--polls", "6000"])]
    for h in (0, 1):
        J += huge("opt", h, deep, families=("plant:130:2:1:20:-9:1", "plant:130:1:2:30:-60:1"))
    return J


@prop("P03", REAL + "On every instance the returned solution and the printed report are checked against the instance: one cycle through all cities, cost, probability, chain of edges, counters.", assumptions=[CLOCK])
def _(deep):
    J = []
    for h in (0, 1):
        p = "alg:3:3" if h else None
        J += [e2e("report", "alpha:3:0,1,2", 3, h, p), e2e("report", "alpha:4:0,1,2,4", 4, h, p), e2e("report", "alpha:5:1,2,4" if deep else "alpha:5:1,3", 5, h, p),
              e2e("report", "alpha:6:0,1" if deep else "alpha:5:0,1,3", 6, h, None), e2e("report", alg(8, off=0), 8, h, p), e2e("report", alg(9), 9, h), e2e("report", alg(10, off=-1), 11, h),
              e2e("report", "grid:5:3:3:0.01", 5, h, p), e2e("report", alg(7), 7, h, p, extra=["--jump", "7"]),
              e2e("report", alg(12, 4, 4, 4), 12, h, extra=["--polls", "6000"])] + large("report", h, deep, (20, 30)) + [e2e("report", "plant:100:2:2:20:50:1", 100, h, "fine:1:1" if h else None, extra=["--polls", "60"]), e2e("report", "circle:60:8:1:1", 60, h, extra=["--polls", "150"])]
        if deep:
            J += [e2e("report", alg(9, off=-1), 9, h, p), e2e("report", alg(12), 12, h, extra=["--polls", "6000"]), e2e("report", "alpha:6:0,1,3", 6, h)]
    for h in (0, 1):
        J += huge("report", h, deep)
    J += [e2e("report", "plant:400:1:1:1000:30000:1", 400, 1, "fine:1:1", extra=["--polls", "20"])]
    return J


@prop("P04", REAL + "Hybrid mode: every assignment of probabilities over small alphabets on small graphs, structured ones on larger graphs; all of them have to end within the tolerance of the same optimum. Classic mode: every instance is read twice by the real csv reader, with and without probabilities, and both runs are compared.", assumptions=[CLOCK])
def _(deep):
    J = [e2e("opt", "alpha:4:1,2,4", 4, 1, "alpha:4:0,0.5,1"), e2e("opt", "alpha:4:0,1,3", 4, 1, "alpha:4:0.1,0.9"),
         e2e("opt", "alpha:5:1,3", 5, 1, "alpha:5:0,1"), e2e("opt", alg(6, 4, 4, 4), 6, 1, "alg:11:11"), e2e("opt", alg(8, 4, 4, 4), 8, 1, "alg:7:7"),
         e2e("opt", alg(9, off=-1), 9, 1, "alg:4:4"), e2e("opt", alg(10, 4, 4, 4), 10, 1, "alg:5:5"), e2e("opt", "grid:5:3:3:1", 5, 1, "alg:3:3"),
         e2e("opt", alg(12, 3, 3, 3), 12, 1, "alg:3:3", extra=["--polls", "6000"]),
         e2e("opt", alg(7, 8, 8, 4, 40, mods="29,97,397"), 7, 1, "fine:3:3"), e2e("opt", alg(8, 6, 6, 4, 20, mods="97,397"), 8, 1, "alg:5:5"), e2e("opt", alg(9, 6, 6, 4, 100, mods="97,397"), 9, 1, "fine:2:2"),
         e2e("opt", alg(9, 6, 6, 4, 1, mods="97,397"), 9, 1, "alg:3:3"), e2e("opt", "cluster:9:16:1", 9, 1, "fine:2:2"), e2e("opt", "circle:9:8:8:1", 9, 1, "alg:4:4"),
         e2e("opt", "plant:16:3:3:20:50:1", 16, 1, "fine:2:2", extra=["--polls", "1500"]), e2e("opt", "plant:24:3:3:40:-100:1", 24, 1, "alg:2:2", extra=["--polls", "1500"]), e2e("opt", "plant:60:2:2:20:50:1", 60, 1, "fine:1:2", extra=["--polls", "300"]),
         e2e("noprob", "alpha:4:0,1,3", 4, 0, "alg:3:3", extra=["--dir", "@WORK@"]), e2e("noprob", alg(6, 4, 4, 4), 6, 0, "alg:4:4", extra=["--dir", "@WORK@"]),
         e2e("noprob", alg(8, 3, 3, 3), 8, 0, "alg:3:3", extra=["--dir", "@WORK@"]), e2e("noprob", alg(9, 4, 4, 4, off=-1), 9, 0, "alg:3:3", extra=["--dir", "@WORK@"])]
    if deep:
        J += [e2e("opt", "alpha:5:1,2,4", 5, 1, "alpha:5:0,0.04,1" if False else "alg:11:11"), e2e("opt", "alpha:5:1,3", 5, 1, "alpha:5:0,0.5,1"),
              e2e("opt", alg(7), 7, 1, "alg:11:11"), e2e("opt", alg(10), 10, 1, "alg:6:6"), e2e("opt", alg(12), 12, 1, "alg:3:3", extra=["--polls", "6000"]),
              e2e("noprob", alg(10, 6, 6, 6), 10, 0, "alg:3:3", extra=["--dir", "@WORK@"])]
    return J


@prop("P05", REAL + "For every instance, every moment at which the solver looks at the clock is taken as the one at which the time limit is found exceeded (all interruption points of the run, up to the listed number), and every number of explored subproblems as the one after which it is over, for several values of the clock at the start.", assumptions=[CLOCK])
def _(deep):
    J = []
    for h in (0, 1):
        p = "alg:3:3" if h else None
        J += [e2e("interrupt", "alpha:3:0,1,2", 3, h, p), e2e("interrupt", "alpha:4:0,1,2,4", 4, h, p), e2e("interrupt", "alpha:5:1,2,4" if deep else "alpha:5:1,3", 5, h, p if deep else None),
              e2e("interrupt", "alpha:5:0,1,3", 5, h), e2e("interrupt", alg(7), 7, h), e2e("interrupt", alg(8, off=0) if deep else alg(8, 4, 4, 4, off=0), 8, h, p, extra=["--max-polls", "300"]),
              e2e("interrupt", alg(9, off=-1), 9, h, extra=["--clock-base", "1000000"]), e2e("interrupt", alg(10) if deep else alg(10, 4, 4, 4), 10, h, extra=["--clock-base", "2000", "--max-polls", "300"]),
              e2e("interrupt", alg(12, 4, 4, 4), 12, h, extra=["--max-polls", "600" if deep else "150"])] + large("interrupt", h, deep, (20, 30), extra=["--max-polls", "60"])
        if deep:
            J += [e2e("interrupt", "alpha:6:1,2", 6, h), e2e("interrupt", "alpha:6:0,1", 6, h), e2e("interrupt", alg(11), 11, h), e2e("interrupt", alg(10, off=-2), 10, h, p),
                  e2e("interrupt", alg(12), 12, h, extra=["--max-polls", "1500"])]
    for h in (0, 1):
        J += huge("interrupt", h, False, ["--max-polls", "134", "--first-poll", "127"], families=("plant:130:1:1:1000:30000:1",))
    return J


POOL3 = "alpha:4:1,2,4@123;alpha:5:1,2,4@40123;alpha:5:0,1,3@3;alg:5:8:8:8:1:1:7@77;alpha:3:1,2@3"
POOLB = "alg:8:8:8:8:1:1:11@77;alg:8:8:8:8:-1:1:5@100;alg:7:8:8:8:1:1:7@411;alpha:6:0,1@9;alg:8:8:8:8:-3:1:7@300;alpha:4:1,2,4@700"


@prop("P06", REAL + "All sequences of runs (histories) up to the listed depth over pools of instances, in memory that is reused in four ways, against the run of the same instance alone; all instances of the families from memory filled with different bytes; the input graph is compared before and after.", assumptions=[CLOCK])
def _(deep):
    J = []
    for h in (0, 1):
        J += [dict(harness="e2e", cap=8, hybrid=h, args=["--mode", "history", "--pool", POOL3, "--depth", "4" if deep else "3", "--prob", "alg:3:3"]),
              dict(harness="e2e", cap=8, hybrid=h, args=["--mode", "history", "--pool", POOLB, "--depth", "4" if deep else "3", "--prob", "alg:3:3"]),
              e2e("fresh", "alpha:4:0,1,2,4", 4, h, "alg:2:2"), e2e("fresh", "alpha:5:1,2,4" if deep else "alpha:5:0,1,3", 7, h), e2e("fresh", alg(8, off=0), 8, h, "alg:2:2"), e2e("fresh", alg(9, off=-1), 11, h),
              e2e("fresh", alg(10), 10, h)] + large("fresh", h, deep, (20, 30), ["--polls", "200"])
        if deep:
            J += [e2e("fresh", alg(11), 12, h), e2e("fresh", "alpha:6:0,1", 6, h, "alg:2:2")]
    for h in (0, 1):
        J += huge("fresh", h, False, polls="160")
    return J


@prop("P07", REAL + "Instances solved by solvers compiled for larger capacities than their number of cities, with the tolerance of that capacity.", assumptions=[CLOCK])
def _(deep):
    J = []
    for h in (0, 1):
        for cap in (5, 7, 16) + ((6, 9, 12, 20) if deep else ()):
            J += [e2e("opt", "alpha:4:0,1,2,4", cap, h), e2e("opt", "alpha:5:0,1,3" if not deep else "alpha:5:0,1,2,7", cap, h)]
        J += [e2e("opt", "alpha:3:0.5,1,2,5", 8, h), e2e("opt", "alpha:6:1,2", 8, h), e2e("opt", alg(7), 16, h), e2e("opt", alg(8, off=-1), 12, h), e2e("opt", alg(9), 20, h), e2e("opt", alg(10), 16, h), e2e("opt", alg(9, off=-2), 10, h),
              e2e("opt", "grid:5:3:3:1", 20, h), e2e("opt", alg(8), 40, h), e2e("opt", "alpha:4:1,2,9", 40, h)] + large("opt", h, deep, (16, 20, 24), spare=5)
        if deep:
            J += [e2e("opt", "alpha:6:0,1,3", 7, h), e2e("opt", alg(11), 20, h, extra=["--polls", "6000"]), e2e("opt", alg(7, off=-1), 8, h, "alg:3:3"), e2e("opt", alg(12), 16, h, extra=["--polls", "6000"])]
    for h in (0, 1):
        J += huge("opt", h, deep, spare=10, polls="200")
    return J


@prop("P08", REAL + "The same enumeration with the code compiled with the address, undefined behaviour and memory sanitizers (any report is a violation), including the printing of graph, problem and report; the construction of graphs and the two readers of files; and with the heap (and the open files) measured before and after every run, construction and reading.", assumptions=[CLOCK, "What the sanitizers of clang 18 detect (accesses outside objects, uninitialised values that are used, undefined arithmetic)."])
def _(deep):
    J = []
    P = ["--print", "1"]
    for h in (0, 1):
        p = "alg:2:2" if h else None
        for fl in ("asan", "msan"):
            J += [e2e("opt", "alpha:3:0,1,2", 3, h, p, fl, extra=P), e2e("opt", "alpha:4:0,1,3", 4, h, p, fl, extra=P), e2e("opt", "alpha:5:0,1" if not deep else "alpha:5:0,1,3", 5, h, None, fl, extra=P),
                  e2e("opt", "alpha:5:1,3", 7, h, None, fl, extra=P), e2e("opt", alg(8, 4, 4, 4, off=0), 8, h, p, fl, extra=P), e2e("opt", alg(9, 4, 4, 4, off=-1), 9, h, None, fl, extra=P),
                  e2e("opt", alg(10, 4, 4, 4), 12, h, None, fl, extra=P), e2e("opt", "grid:5:3:2:0.001", 5, h, None, fl, extra=P), e2e("opt", "alpha:4:1000000,3000000000,0.0000001", 4, h, None, fl, extra=P),
                  e2e("opt", "plant:20:2:2:20:50:1", 20, h, None, fl, extra=P + ["--polls", "150"]), e2e("opt", "plant:24:2:2:20:-9:1", 30, h, p, fl, extra=P + ["--polls", "100"])]
            if deep or (fl == "asan") == h:
                J += [e2e("opt", "plant:130:1:1:20:%s:1" % ("50" if h else "-9"), 130, h, None, fl, extra=P + ["--polls", "134"])]
            if deep:
                J += [e2e("opt", "alpha:6:0,1", 6, h, None, fl, extra=P), e2e("opt", alg(10, off=-1), 10, h, p, fl, extra=P), e2e("opt", alg(12, 4, 4, 4), 12, h, None, fl, extra=P + ["--polls", "3000"])]
        J += [e2e("leak", "alpha:4:0,1,2,4", 4, h), e2e("leak", "alpha:5:0,1,3", 5, h), e2e("leak", alg(8, off=0), 8, h), e2e("leak", alg(9, off=-1), 9, h), e2e("leak", alg(10), 12, h)]
        H = ["--heap", 1]
        Y = ["--memory", 1]
        J += [ds("euclid", 5, h, ["--n", n, "--gx", 3] + H) for n in (1, 2, 3, 4)] + [ds("euclid", 5, h, ["--n", 3, "--gx", 3] + Y, fl) for fl in ("asan", "msan")]
        J += [rd("csv", 4, h, ["--family", "alpha:4:0,1", "--prob", "alg:2:2"] + H), rd("csv", 9, h, ["--family", alg(9, 3, 3, 3, off=-1)] + H), rd("csvmut", 3, h, ["--base", 0] + H), rd("tsp", 5, h, ["--n", 3, "--gx", 2] + H), rd("tsp", 9, h, ["--n", 9, "--gx", 2] + H),
              rd("tspmut", 4, h, ["--base", 0] + H), rd("csv", 4, h, ["--family", "alpha:3:0,1", "--prob", "alg:2:2"] + Y, "msan"), rd("tsp", 4, h, ["--n", 3, "--gx", 1] + Y, "msan")]
        if deep:
            J += [e2e("leak", "alpha:6:0,1", 6, h), e2e("leak", alg(11), 11, h), rd("csvmut", 4, h, ["--base", 2] + H), rd("tspmut", 5, h, ["--base", 2] + H), rd("csvmut", 3, h, ["--base", 0] + Y, "msan"), rd("tspmut", 4, h, ["--base", 0] + Y, "msan")]
    J += [e2e("opt", "plant:340:1:1:20:50:1", 340, 0, None, "plain", extra=["--polls", "2"])]
    return J


@prop("P28", REAL + "Every run is printed line by line (with a virtual clock that advances) and its statistics and progress lines are checked.", assumptions=[CLOCK])
def _(deep):
    J = []
    S = ["--stats", "1"]
    for h in (0, 1):
        p = "alg:3:3" if h else None
        J += [e2e("report", "alpha:3:0,1,2", 3, h, p, extra=S), e2e("report", "alpha:4:0,1,2,4", 4, h, p, extra=S), e2e("report", "alpha:5:1,2,4" if deep else "alpha:5:1,3", 5, h, p, extra=S), e2e("report", "alpha:5:0,1,3", 6, h, None, extra=S),
              e2e("report", alg(8), 8, h, p, extra=S), e2e("report", alg(9, off=-1), 9, h, None, extra=S + ["--clock-step", "0.01"]), e2e("report", alg(10), 10, h, None, extra=S), e2e("report", alg(10, off=-2), 12, h, None, extra=S),
              e2e("report", alg(8), 8, h, None, extra=S + ["--jump", "9"])] + large("report", h, deep, (16, 24), S)
        if deep:
            J += [e2e("report", alg(11), 11, h, None, extra=S), e2e("report", alg(12), 12, h, None, extra=S + ["--polls", "6000"]), e2e("report", "circle:10:16:16:1", 10, h, None, extra=S), e2e("report", alg(9), 9, h, p, extra=S)]
    for h in (0, 1):
        J += huge("report", h, deep, ["--stats", "1"], polls="200" if deep else "140", families=("plant:130:1:1:1000:30000:1", "plant:130:2:1:997:30000:0.37"))
    return J


@prop("P31", REAL + "As for P01 and P02, with the other spanning tree engine compiled in (in a copy of the sources in which only that setting differs), also under the sanitizers.", assumptions=[CLOCK])
def _(deep):
    J = []
    K = dict(prim=0)
    for h in (0, 1):
        p = "alg:3:3" if h else None
        J += [e2e("opt", "alpha:3:0,1,2,5", 3, h, **K), e2e("opt", "alpha:4:0,1,2,4", 4, h, p, **K), e2e("opt", "alpha:5:1,2,4" if deep else "alpha:5:1,3", 5, h, **K), e2e("opt", "alpha:5:0,1,3", 5, h, **K),
              e2e("opt", "alpha:6:1,2", 6, h, **K), e2e("opt", alg(8), 8, h, p, **K), e2e("opt", alg(7, 4, 4, 4, off=0, scale="1e39"), 7, h, **K), e2e("opt", alg(9, off=-1), 9, h, **K), e2e("opt", alg(10), 12, h, **K), e2e("report", alg(8, off=0), 8, h, **K), e2e("leak", alg(8, 4, 4, 4, off=0), 8, h, **K),
              e2e("opt", "alpha:4:0,1,3", 4, h, flavour="asan", **K), e2e("opt", alg(8, 4, 4, 4), 9, h, flavour="asan", **K)] + large("opt", h, deep, (16, 24), **K)
        if deep:
            J += [e2e("opt", "alpha:6:0,1", 6, h, **K), e2e("opt", alg(11), 11, h, extra=["--polls", "6000"], **K), e2e("opt", alg(12, 4, 4, 4), 12, h, extra=["--polls", "6000"], **K), e2e("opt", alg(9), 9, h, "alg:3:3", **K)]
    for h in (0, 1):
        J += huge("opt", h, deep, prim=0)
    return J


# ------------------------------------------------------------------------------------------------ single steps
CONS = "Constraint matrices with more mandatory edges than cities cannot be stored by a subproblem and are not generated."


@prop("P09", REAL + "Bounding on every combination of constraint matrix (each edge free, mandatory or forbidden), start vertex, level, incumbent and graph of the families. For 7 to 9 cities: at most k constraints on any edges, or every constraint on the edges of s cities, whichever they are; oracle: enumeration of all tours. Every step of searches on planted instances with 12 to 260 cities, with tracked tours (the optimum and its neighbours).", assumptions=[CONS])
def _(deep):
    J = []
    for h in (0, 1):
        p = ["--prob", "alg:2:2"] if h else []
        J += [sub("bound", 3, h, ["--family", "alpha:3:1,2,5"]), sub("bound", 4, h, ["--family", "alpha:4:1,3" if not deep else "alpha:4:1,2,4"] + p), sub("bound", 4, h, ["--family", "alpha:4:0,1,3"]),
              sub("bound", 5, h, ["--family", alg(5, 2, 2, 1, mods="7,11"), "--incumbents", "4"]), sub("bound", 6, h, ["--family", alg(5, 1, 2, 1, off=-1, mods="7"), "--incumbents", "4"])]
        J += [sub("bound", 5, h, ["--family", "alpha:4:1e39,3e39"]), sub("bound", 4, h, ["--family", "alpha:4:0,1e60,1e20"])]
        q = ["--prob", "fine:2:1"] if h else []
        J += [sub("bound", 7, h, ["--family", alg(7, 1, 2, 1, mods="7"), "--space", "few:2"] + q), sub("bound", 8, h, ["--family", "plant:8:2:1:20:50:1", "--space", "few:2"]), sub("bound", 9, h, ["--family", "circle:8:2:1:1", "--space", "few:1"] + q),
              sub("bound", 7, h, ["--family", alg(7, 1, 1, 1, mods="11"), "--space", "stars:1", "--levels", "1"])]
        J += walk("bound", h, deep)
        if deep:
            J += [sub("bound", 5, h, ["--family", alg(5, 3, 3, 2, mods="7,11")]), sub("bound", 6, h, ["--family", alg(6, 1, 1, 1, mods="11"), "--incumbents", "2", "--levels", "1"]),
                  sub("bound", 8, h, ["--family", alg(8, 2, 2, 1, mods="7,11"), "--space", "few:2"]), sub("bound", 9, h, ["--family", "plant:9:2:2:20:50:1", "--space", "few:1"]), sub("bound", 7, h, ["--family", "circle:7:4:1:1", "--space", "few:3", "--incumbents", "3"])]
    return J


@prop("P36", REAL + "Bounding on every combination of constraint matrix, start vertex, level, incumbent and graph of the families, with every 1-tree that is kept recorded by a linker wrapper around the list of subproblems; oracle: the rule recomputed from those 1-trees.", assumptions=[CONS, "When the 1-trees of the iterations cannot be observed (the code no longer keeps them in that list), the case is counted as skipped.", "When several kept 1-trees have the value of the subproblem, the rule may hold for any of them; an edge that is in c of the ten is as good as one that is in 10-c."])
def _(deep):
    J = []
    for h in (0, 1):
        p = ["--prob", "alg:2:2"] if h else []
        J += [sub("select", 4, h, ["--family", "alpha:4:1,2,5"]), sub("select", 5, h, ["--family", alg(5, 2, 1, 1, mods="7,11"), "--incumbents", "2"]),
              sub("select", 6, h, ["--family", alg(6, 3, 3, 2, mods="11,17"), "--decided", 5, "--incumbents", "2"] + p),
              sub("select", 7, h, ["--family", alg(7, 3, 3, 2, mods="11,29"), "--decided", 4, "--incumbents", "2"] + p),
              sub("select", 9, h, ["--family", alg(7, 8, 8, 8, mods="11,29"), "--decided", 0, "--incumbents", "2"] + p), sub("select", 8, h, ["--family", alg(8, 4, 4, 4, mods="11,29"), "--decided", 2, "--incumbents", "2"] + p),
              sub("select", 8, h, ["--family", "plant:8:1:1:20:50:1", "--space", "few:2"] + p), sub("select", 10, h, ["--family", "plant:9:2:2:20:50:1", "--space", "few:1"] + (["--prob", "fine:2:1"] if h else []))]
        J += walk("select", h, deep)
        if deep:
            J += [sub("select", 5, h, ["--family", alg(5, 3, 3, 2, mods="7,11"), "--incumbents", "2"] + p), sub("select", 8, h, ["--family", alg(8, 6, 6, 6, mods="11,29,97"), "--decided", 3, "--incumbents", "3"] + p)]
    return J


@prop("P10", REAL + "Branching on every undecided edge of every constraint matrix. For 7 to 9 cities: at most k constraints on any edges, or every constraint on the edges of s cities, whichever they are; oracle: enumeration of all tours, distributed over parent and children. Every step of searches on planted instances with 12 to 260 cities, with tracked tours (the optimum and its neighbours).", assumptions=[CONS])
def _(deep):
    J = []
    for h in (0, 1):
        J += [sub("branch", 3, h, ["--n", 3]), sub("branch", 4, h, ["--n", 4]), sub("branch", 5, h, ["--n", 5]), sub("branch", 7, h, ["--n", 5])]
        J += [sub("branch", 7, h, ["--n", 7, "--space", "few:3"]), sub("branch", 9, h, ["--n", 8, "--space", "few:2"]), sub("branch", 7, h, ["--n", 7, "--space", "stars:1"]), sub("branch", 9, h, ["--n", 9, "--space", "few:1"])]
        J += walk("branch", h, deep) + [steps("branch", n + 2 * h, h, ["--n", n, "--names", k]) for n, k in ((12, 4), (20, 4), (40, 2), (130, 1))]
        if deep:
            J += [sub("branch", 8, h, ["--n", 7, "--space", "few:4"]), sub("branch", 8, h, ["--n", 8, "--space", "few:3", "--variants", 1]), sub("branch", 9, h, ["--n", 6, "--space", "stars:2"]), sub("branch", 9, h, ["--n", 9, "--space", "stars:1", "--variants", 1]), sub("branch", 6, h, ["--n", 6, "--variants", 1]), sub("branch", 12, h, ["--n", 4])]
        else:
            J += [sub("branch", 6, h, ["--n", 4])]
    return J


@prop("P11", REAL + "Inference on every constraint matrix (each edge free, mandatory or forbidden). For 7 to 9 cities: at most k constraints on any edges, or every constraint on the edges of s cities, whichever they are; oracle: enumeration of all tours before and after. Constraints on every few cities, named in several ways, of 12 to 260, with tracked tours.", assumptions=[CONS])
def _(deep):
    J = [sub("infer", c, h, ["--n", n]) for h in (0, 1) for c, n in ((3, 3), (4, 4), (5, 5), (8, 4), (7, 5))]
    J += [sub("infer", 6, 0, ["--n", 6]), sub("infer", 8, 0, ["--n", 6])]
    for h in (0, 1):
        J += [sub("infer", 7, h, ["--n", 7, "--space", "few:4"]), sub("infer", 8, h, ["--n", 8, "--space", "few:4"]), sub("infer", 10, h, ["--n", 9, "--space", "few:3"]), sub("infer", 7 + h, h, ["--n", 7, "--space", "stars:2"]), sub("infer", 9, h, ["--n", 9, "--space", "stars:1"])]
        J += [steps("infer", n + 3 * h, h, ["--n", n, "--names", k + (6 if deep and n < 100 else 0)]) for n, k in ((12, 4), (20, 6), (40, 3), (130, 1)) + (((260, 1),) if h else ())]
    if deep:
        J += [sub("infer", 8, 0, ["--n", 8, "--space", "stars:2"]), sub("infer", 8, 1, ["--n", 8, "--space", "few:5"]), sub("infer", 9, 0, ["--n", 9, "--space", "few:4"]), sub("infer", 7, 1, ["--n", 7, "--space", "few:6"]), sub("infer", 6, 1, ["--n", 6]), sub("infer", 9, 1, ["--n", 6])]
    return J


@prop("P12", REAL + "Variable fixing on every subproblem that bounding leaves open, over every constraint matrix, start vertex, incumbent and graph of the families. For 7 to 9 cities: at most k constraints on any edges, or every constraint on the edges of s cities, whichever they are; oracle: enumeration of all tours cheaper than the incumbent. Every step of searches on planted instances with 12 to 260 cities, with tracked tours (the optimum and its neighbours).", assumptions=[CONS])
def _(deep):
    J = []
    for h in (0, 1):
        J += [sub("fix", 4, h, ["--family", "alpha:4:1,2,4" if deep else "alpha:4:1,4"]), sub("fix", 4, h, ["--family", "alpha:4:0,1,3"]), sub("fix", 5, h, ["--family", alg(5, 3, 2, 1, mods="7,11"), "--levels", "1"]),
              sub("fix", 7, h, ["--family", alg(5, 2, 2, 1, mods="5"), "--levels", "1"])]
        J += [sub("fix", 7, h, ["--family", alg(7, 2, 2, 1, mods="7"), "--space", "few:2"]), sub("fix", 8, h, ["--family", "plant:8:2:1:20:50:1", "--space", "few:2"]), sub("fix", 9, h, ["--family", "circle:9:2:1:1", "--space", "few:1", "--incumbents", "3"])]
        J += walk("fix", h, deep)
        if deep:
            J += [sub("fix", 5, h, ["--family", alg(5, 4, 3, 2, mods="7,11"), "--levels", "1"]), sub("fix", 6, h, ["--family", alg(6, 1, 2, 1, mods="11"), "--incumbents", "2", "--levels", "1"]), sub("fix", 8, h, ["--family", alg(8, 2, 2, 1, mods="7,11"), "--space", "few:2"]), sub("fix", 7, h, ["--family", "circle:7:4:1:1", "--space", "few:3", "--incumbents", "3"]), sub("fix", 9, h, ["--family", "plant:9:2:2:20:50:1", "--space", "few:1"])]
    return J


@prop("P13", REAL + "The constrained spanning trees of both algorithms, completed to 1-trees, for every graph of the families, start vertex and acyclic set of mandatory and forbidden edges. For 7 to 11 cities: at most k constraints on any edges, or every constraint on the edges of s cities, whichever they are; oracle: enumeration of all spanning trees, beyond 7 cities the greedy rule (compared with the enumeration wherever both are computed). And the 1-tree that bounding leaves in the subproblem. Both at every step of searches on instances with 12 to 260 cities.", assumptions=[CONS])
def _(deep):
    J = []
    for h in (0, 1):
        J += [sub("onetree", 3, h, ["--family", "alpha:3:0,1,2,5"]), sub("onetree", 4, h, ["--family", "alpha:4:0,1,3"]), sub("onetree", 4, h, ["--family", "alpha:4:1,2,4,9"]), sub("onetree", 6, h, ["--family", "alpha:4:0,1,3"]), sub("onetree", 4, h, ["--family", "alpha:4:0,1e38,1e150"]), sub("onetree", 5, h, ["--family", alg(5, 2, 2, 1, off=-2, scale="1e39", mods="7")]),
              sub("onetree", 5, h, ["--family", alg(5, 3, 3, 1, off=-1, mods="7,11")]), sub("onetree-bound", 4, h, ["--family", "alpha:4:1,3"]), sub("onetree-bound", 5, h, ["--family", alg(5, 2, 2, 1, mods="7"), "--incumbents", "1"])]
        J += [sub("onetree", 7, h, ["--family", alg(7, 2, 2, 1, off=-1, mods="7,11"), "--space", "few:3"]), sub("onetree", 8, h, ["--family", "plant:8:2:2:5:-6:1", "--space", "few:3"]), sub("onetree", 12, h, ["--family", "plant:11:2:2:5:12:1", "--space", "few:2"]),
              sub("onetree", 8, h, ["--family", alg(7, 1, 2, 1, mods="5"), "--space", "stars:1"]), sub("onetree-bound", 8, h, ["--family", "plant:8:2:2:5:12:1", "--space", "few:1"])]
        J += walk("onetree", h, deep) + walk("trees", h, deep)
        if deep:
            J += [sub("onetree", 5, h, ["--family", alg(5, 4, 4, 2, mods="7,11")]), sub("onetree", 6, h, ["--family", alg(6, 1, 2, 1, off=0, mods="11")]),
                  sub("onetree-bound", 5, h, ["--family", alg(5, 3, 3, 2, mods="7,11"), "--incumbents", "2"]), sub("onetree-bound", 4, h, ["--family", "alpha:4:0,1,2,4"]), sub("onetree", 9, h, ["--family", "plant:9:2:2:5:-6:1", "--space", "few:4"]), sub("onetree", 11, h, ["--family", alg(11, 4, 4, 2, mods="7,11"), "--space", "few:2"])]
    J += [sub("onetree", 5, 0, ["--family", alg(5, 2, 2, 1, off=0, mods="7")], flavour="asan")]
    return J


@prop("P14", REAL + "Every 1-tree on up to 7 (thorough: 8) cities with every start vertex, and on larger ones (up to 260) a cycle of every length with five kinds of branches, renamed in every affine way; the edges stored in rotated, reversed and flipped orders; oracle: leaf stripping.")
def _(deep):
    J = [sub("cycle", n, h, ["--n", n]) for h in (0, 1) for n in (3, 4, 5, 6, 7)] + [sub("cycle", 10, 0, ["--n", 6])]
    J += [sub("cycle-large", n + (n == 16), n % 2, ["--n", n]) for n in (9, 10, 12, 15, 16)] + [sub("cycle-large", n, h, ["--n", n, "--orders", 12]) for n in (20, 32, 40) for h in (0, 1)] + [sub("cycle-large", 64, 0, ["--n", 64, "--orders", 1])] + [sub("cycle-large", n, h, ["--n", n, "--orders", 1, "--units", u]) for n, h, u in ((130, 0, 4), (260, 1, 1))]
    if deep:
        J += [sub("cycle-large", n, h, ["--n", n]) for n in (19, 24, 30) for h in (0, 1)]
        J += [sub("cycle", 8, 0, ["--n", 8, "--orders", 4]), sub("cycle", 12, 1, ["--n", 7])]
    return J


@prop("P20", REAL + "Children of every value and probability inserted into every list of open subproblems up to the listed length; and the whole search performed step by step on real instances, with the list checked after every step.", assumptions=["Values within 1e-9 of the tolerance, and probabilities within 1e-6 of the threshold, are not judged."])
def _(deep):
    J = [sub("open", 5, 0, ["--len", 5 if deep else 4]), sub("open", 5, 1, ["--len", 4 if deep else 3]), sub("open", 9, 0, ["--len", 4]),
         sub("openrun", 5, 0, ["--family", "alpha:5:1,2,4"]), sub("openrun", 5, 1, ["--family", "alpha:5:1,3", "--prob", "alg:3:3"])]
    for h in (0, 1):
        p = ["--prob", "alg:3:3"] if h else []
        J += [sub("openrun", 8, h, ["--family", alg(8, off=-1)] + p), sub("openrun", 9, h, ["--family", alg(9)] + (["--prob", "alg:2:2"] if h else [])), sub("openrun", 10, h, ["--family", alg(10)])]
        q = ["--prob", "fine:3:3"] if h else []
        J += [sub("openrun", n, h, ["--family", "plant:%d:4:4:20:50:1" % n, "--steps", "400"] + q) for n in (16, 24, 32)] + [sub("openrun", 30, h, ["--family", "circle:30:8:1:1", "--steps", "400"] + q)]
        if deep:
            J += [sub("openrun", 12, h, ["--family", alg(12), "--steps", "6000"]), sub("openrun", 6, h, ["--family", "alpha:6:1,2"]), sub("openrun", 10, h, ["--family", alg(10, off=-2)] + p)]
    for h in (0, 1):
        J += [sub("openrun", 130, h, ["--family", "plant:130:2:2:20:50:1", "--steps", "40"])]
    return J


@prop("P29", REAL + "For every instance the run is stopped right after its start: the incumbent is compared with the nearest neighbour tours from every city (all ways to break ties), the start vertex with the 1-tree bounds (and, on equal bounds in hybrid mode, probabilities) of all.", assumptions=[CLOCK, "Where nearest neighbour ties make several tours possible, any of them is accepted."])
def _(deep):
    J = []
    for h in (0, 1):
        p = ["--prob", "alg:4:4"] if h else []
        J += [sub("start", 3, h, ["--family", "alpha:3:0,1,2,5"] + p), sub("start", 4, h, ["--family", "alpha:4:0,1,2,4"] + p), sub("start", 5, h, ["--family", "alpha:5:1,2,4"]), sub("start", 5, h, ["--family", "alpha:5:0,1,3"]),
              sub("start", 7, h, ["--family", alg(6)] + p), sub("start", 7, h, ["--family", alg(7, mods="11,17,29") if not deep else alg(7, 12, 12, 12, mods="11,17,29")] + p), sub("start", 8, h, ["--family", alg(8, 4, 4, 4, off=-1, mods="11,17,29")] + p), sub("start", 12, h, ["--family", alg(10, mods="11,17,29,97")] + p)]
        # weights that differ by fractions of the tolerance: no chain of small steps may lead away from the best bound
        for n, z in ((4, 0.7), (5, 0.45), (6, 0.7), (7, 0.3), (8, 0.45), (9, 0.2)):
            J += [sub("start", n, h, ["--family", alg(n, 4, 4, 4, off=o, scale="%.7f" % (z * 0.00127 * n ** .5), mods="5,11,17,29")] + (["--prob", "alg:4:4"] if h else [])) for o in (1, 1000)]
        q = ["--prob", "fine:3:3"] if h else []
        J += [sub("start", n, h, ["--family", "plant:%d:6:6:1000:%d:1" % (n, s)] + q) for n, s in ((16, 30000), (20, -3000), (31, 30000), (40, -5000))] + [sub("start", n, h, ["--family", "plant:%d:4:4:1000:%d:1" % (n, s)] + q) for n, s in ((60, -30000), (100, 30000))]
        if deep:
            J += [sub("start", 6, h, ["--family", "alpha:6:1,2"]), sub("start", 14, h, ["--family", alg(14, mods="29,97,211")] + p)]
    for h in (0, 1):
        J += [sub("start", 130, h, ["--family", "plant:130:2:2:1000:30000:1"] + (["--prob", "fine:2:1"] if h else []))]
    return J


# ------------------------------------------------------------------------------------------------ data structures
def ds(mode, cap=20, hybrid=0, extra=(), flavour="plain", **kw):
    return dict(harness="ds", cap=cap, hybrid=hybrid, flavour=flavour, args=["--mode", mode] + [str(x) for x in extra], **kw)


@prop("P15", REAL + "Both algorithms, in both orders, on every graph of the families (ties, missing edges, disconnected graphs, negative weights as they arise from the dual variables); oracle: Prim on the matrix, and union-find for the shape.", assumptions=["Kruskal leaves the edges sorted; the families hold graphs before and after sorting."])
def _(deep):
    J = []
    for h in (0, 1):
        def f(fam, prob=None, shift=None, cap=20, flavour="plain"):
            return ds("mst", cap, h, ["--family", fam] + (["--prob", prob] if prob else []) + (["--shift", shift] if shift else []), flavour)
        J += [f("alpha:3:0,1,2,5", "alg:3:3", cap=3), f("alpha:4:0,1,2,4", "alg:2:2", cap=4), f("alpha:5:0,1,3", cap=5), f("alpha:5:1,2,4", "alg:2:1", "-3"), f("alpha:6:0,1", "alg:2:2" if h else None),
              f("alpha:6:0,1", None, "-0.5", 6), f(alg(8, off=-1), "alg:3:3"), f(alg(12, off=-2)), f(alg(16, off=-3, mods="7,13,17,29")), f(alg(20, mods="5,13,29,97")), f(alg(20, off=-12, mods="17,29"), None, "-7"),
              f("alpha:4:0,1,1e300,4e38", "alg:2:2", cap=4), f("alpha:4:0,1e-300,1e-45,1e-7", cap=5), f(alg(9, off=-2, scale=1e60)), f(alg(12, off=-2, scale=1e-60)), f("grid:5:3:3:0.001"), f("alpha:4:0,1,3", "alg:2:2", cap=4, flavour="asan"), f(alg(9, 4, 4, 4, off=-2), cap=9, flavour="asan"),
              f("plant:30:6:6:10:-30:0.37", "fine:2:1" if h else None, cap=40), f("plant:60:4:4:10:300:1", cap=60), f("plant:100:4:4:10:-30:0.37", "fine:2:2" if h else None, cap=100), f(alg(100, 4, 4, 4, off=-30, mods="7,97,997"), None, "-7", cap=100)]
        if deep:
            J += [f("alpha:5:0,1,2,4", cap=6), f("alpha:6:0,1,3"), f("alpha:7:0,1", cap=7), f(alg(20, 16, 16, 16, off=-2, mods="7,13,17,29,97"), "alg:2:2"), f("alpha:4:0,1,2,4", "alpha:4:0,0.5,1" if h else None), f("alpha:6:1,2", "alg:2:2", "-1.5", 6)]
    for h in (0, 1):
        J += [ds("mst", n, h, ["--family", "plant:%d:2:2:10:%d:0.37" % (n, q)] + (["--prob", "fine:2:1"] if h else [])) for n in (130, 260) for q in (300, -9)]
    J += [ds("mst", 400, 0, ["--family", "plant:400:1:1:10:%d:0.37" % q]) for q in (300, -9)]
    return J


@prop("P16", REAL + "Sorting the edges of every graph of the families, given in another order, and again after three kinds of changes of the weights.")
def _(deep):
    J = []
    for h in (0, 1):
        def f(fam, prob=None, shift=None, cap=20, flavour="plain"):
            return ds("sort", cap, h, ["--family", fam] + (["--prob", prob] if prob else []) + (["--shift", shift] if shift else []), flavour)
        J += [f("alpha:3:0,1,2,5", "alpha:3:0,0.5,1", cap=3), f("alpha:4:0,1,2", "alpha:4:0,0.5,1" if h else None), f("alpha:5:0,1,3", "alg:2:2" if h else None, cap=5), f("alpha:5:1,2,4", "alg:3:2" if h else None, "-3"), f("alpha:6:0,1", "alg:2:2" if h else None),
              f(alg(8, off=-1), "alg:6:6" if h else None), f(alg(12, off=-2), "alg:3:3" if h else None), f(alg(16, off=-3, mods="3,7,17"), "alg:2:2" if h else None), f(alg(20, mods="2,5,97"), "alg:3:3" if h else None),
              f("plant:40:4:4:10:-30:0.37", "fine:2:1" if h else None, cap=40), f("plant:100:4:4:10:-30:0.37", "fine:2:2" if h else None, cap=100), f(alg(100, 4, 4, 4, off=-30, mods="7,97,997"), "alg:2:1" if h else None, cap=100)]
        if deep:
            J += [f("alpha:5:0,1,2,4", "alg:2:2" if h else None), f("alpha:6:0,1,3"), f("alpha:7:0,1", cap=7), f("alpha:5:1,2", "alpha:5:0,1" if h else None), f(alg(20, 16, 16, 16, mods="2,3,5,13,29"), "alg:3:3" if h else None)]
    for h in (0, 1):
        J += [ds("sort", n, h, ["--family", "plant:%d:2:2:10:%d:0.37" % (n, q)] + (["--prob", "fine:2:1"] if h else [])) for n in (130, 260) for q in (300, -9)]
    J += [ds("sort", 400, 0, ["--family", "plant:400:1:1:10:%d:0.37" % q]) for q in (300, -9)]
    return J


@prop("P17", REAL + "All states of the heap that are reachable with the listed number of keys and values: breadth-first over the memory of the structure, with every insertion, decrease, deletion and extraction as a transition; thin trees cut out of binomial trees (which have the largest degrees), and long structured histories; the cut trees also under the address sanitizer.")
def _(deep):
    J = [ds("heap", extra=["--keys", 3, "--values", 3]), ds("heap", extra=["--keys", 4, "--values", 2]), ds("heap", extra=["--keys", 4, "--values", 3]), ds("heap", extra=["--keys", 3, "--values", 4, "--wide", 1]),
         ds("heapthin", extra=["--log", 10]), ds("heapthin", extra=["--log", 10], flavour="asan"), ds("heapthin", 5, 0, ["--log", 8], "asan"),
         ds("heaprun", extra=["--keys", 80]), ds("heaprun", extra=["--keys", 500, "--variants", 2]), ds("heaprun", 4, 0, ["--keys", 20], "asan"), ds("heap", 20, 0, ["--keys", 3, "--values", 2], "msan")]
    if deep:
        J += [ds("heap", extra=["--keys", 5, "--values", 2, "--case-seconds", 300]), ds("heaprun", extra=["--keys", 300, "--variants", 20]), ds("heap", extra=["--keys", 4, "--values", 4, "--case-seconds", 300])]
    return J


@prop("P18", REAL + "All states of the forest that are reachable with the listed number of nodes, with and without a node left out (breadth-first over the memory of the structure, every merge and find a transition), and structured sequences on more nodes; oracle: the partition.")
def _(deep):
    J = [ds("sets", extra=["--n", n]) for n in ((3, 4, 5, 6, 7) if deep else (3, 4, 5, 6))] + [ds("setsrun", extra=["--n", n]) for n in (8, 16, 20)] + [ds("setsrun", 40, extra=["--n", n]) for n in (31, 40)] + [ds("setsrun", 130, extra=["--n", n]) for n in (129, 130)] + ([ds("setsrun", 260, extra=["--n", 260])] if deep else []) + [ds("sets", 5, 0, ["--n", 5], "asan"), ds("sets", 4, 0, ["--n", 4], "msan")]
    return J


@prop("P19", REAL + "All sequences of insertions and deletions, at the end and at every index up to one beyond it, up to the listed depth, from the empty list and from longer ones, with the sequence compared after every operation; on generic lists and on lists of subproblems, also under the address sanitizer, and with the heap measured.")
def _(deep):
    return [ds("list", extra=["--depth", 6 if deep else 5]), ds("sublist", extra=["--depth", 6 if deep else 5]), ds("list", 3, 0, ["--depth", 4], "asan"), ds("sublist", 3, 0, ["--depth", 4], "asan"), ds("sublist", 3, 1, ["--depth", 4], "msan")] + \
        [ds("list", extra=["--start", s, "--depth", d]) for s, d in ((8, 3), (12, 3), (40, 2), (100, 2), (300, 1))] + [ds("sublist", 4, 0, extra=["--start", s, "--depth", d]) for s, d in ((8, 3), (12, 3), (40, 2), (300, 1))] + [ds("sublist", 20, 1, extra=["--start", 12, "--depth", 2])] + \
        ([ds("list", extra=["--start", 7, "--depth", 4]), ds("sublist", 4, 0, extra=["--start", 7, "--depth", 4]), ds("sublist", 8, 0, extra=["--start", 120, "--depth", 2])] if deep else [])


@prop("P30", REAL + "Every graph of the families built from lists of edges in 6 orders and orientations; every tuple of points of a lattice for Euclidean graphs; and what is printed of them, read back.")
def _(deep):
    J = []
    for h in (0, 1):
        J += [ds("graph", 5, h, ["--family", "alpha:3:0,1.5,200000", "--prob", "alpha:3:0,0.25,1"]), ds("graph", 6, h, ["--family", "alpha:4:0,1,2.25,1000"] + (["--prob", "alg:2:2"] if h else [])), ds("graph", 5, h, ["--family", "alpha:5:0,3"]),
              ds("graph", 20, h, ["--family", alg(9, off=-1), "--prob", "alg:2:2"]), ds("graph", 20, h, ["--family", alg(20, 4, 4, 4, off=-2, scale=0.37)]), ds("graph", 4, h, ["--family", "alpha:4:0,2", "--prob", "alg:2:2"], "asan")]
        J += [ds("euclid", 5, h, ["--n", n, "--gx", gx, "--scale", s]) for n, gx, s in ((1, 3, 1), (2, 4, 0.001), (3, 4, 1000), (4, 3, 1))]
        J += [ds("euclid", 40, h, ["--n", 40, "--gx", 7]), ds("euclid", 100, h, ["--n", 100, "--gx", 11, "--scale", "0.01"]), ds("graph", 40, h, ["--family", "plant:40:4:4:1000:-30:0.37", "--prob", "fine:2:1"]), ds("graph", 100, h, ["--family", "plant:100:4:4:1000:30:0.37"]), ds("graph", 100, h, ["--family", "plant:99:2:2:1000:-300:37", "--prob", "fine:2:2"])]
        if deep:
            J += [ds("graph", 6, h, ["--family", "alpha:5:0,1,3"]), ds("euclid", 6, h, ["--n", 5, "--gx", 3, "--scale", "0.37"]), ds("euclid", 6, h, ["--n", 4, "--gx", 4, "--scale", 1]), ds("euclid", 4, h, ["--n", 3, "--gx", 3], "asan")]
    for h in (0, 1):
        J += [ds("graph", n, h, ["--family", "plant:%d:2:2:10:%d:0.37" % (n, q)] + (["--prob", "fine:2:1"] if h else [])) for n in (130, 260) for q in (300, -9)] + [ds("euclid", 260, h, ["--n", 260, "--gx", 17])]
    J += [ds("graph", 400, 0, ["--family", "plant:400:1:1:10:%d:0.37" % q]) for q in (300, -9)]
    J += [ds("euclid", 400, 1, ["--n", 400, "--gx", 21])]
    return J


# ------------------------------------------------------------------------------------------------ readers of instances
def rd(mode, cap, hybrid=0, extra=(), flavour="plain", **kw):
    return dict(harness="readers", cap=cap, hybrid=hybrid, flavour=flavour, args=["--mode", mode] + [str(x) for x in extra], **kw)


LENIENT = "Files that are neither in the documented format nor unmistakably wrong (odd white space, an entry without its closing parenthesis, empty entries) may be accepted or rejected; only memory safety is checked on them."


@prop("P21", REAL + "The reader is run in a process of its own on the csv file of every instance of the families, in 8 formats, and on every truncation, every replaced or inserted byte (15 values) and every deleted or doubled range of small files, with and without sanitizers; the oracle classifies each text as one that must be accepted (then the graph is compared), must be rejected, or may be either.", assumptions=[LENIENT])
def _(deep):
    J = [rd("none", 5)]
    for h in (0, 1):
        J += [rd("csv", 5, h, ["--family", "alpha:3:0,1,0.001,50000", "--prob", "alpha:3:0,0.25,1"]), rd("csv", 4, h, ["--family", "alpha:4:0,1,2.5", "--prob", "alg:2:2"]), rd("csv", 9, h, ["--family", alg(9, 6, 6, 6, off=-1, scale=0.37), "--prob", "alg:2:2", "--coord", "1000"]),
              rd("csv", 20, h, ["--family", alg(20, 4, 4, 4, off=-2, scale=1234.5), "--prob", "alg:2:2"]), rd("csv", 5, h, ["--family", alg(6, 2, 2, 2)]), rd("csv", 5, h, ["--family", alg(8, 2, 2, 2)])]
        J += [rd("csv", c, h, ["--family", "plant:%d:3:3:1000:%d:%s" % (n, q, sc), "--prob", "fine:2:1", "--coord", "1000"]) for n, c, q, sc in ((32, 40, -30, 0.37), (40, 40, 30000, 0.001), (41, 40, 300, 1), (60, 64, -30, 12.5), (100, 100, 30000, 0.01), (101, 100, 300, 1))]
        J += [rd("csvmut", 5, h, ["--base", k]) for k in (0, 1, 2, 3)] + [rd("csvmut", 4, h, ["--base", 2]), rd("csvmut", 3, h, ["--base", 0])]
    J += [rd("csv", 4, 1, ["--family", "alpha:4:0,1", "--prob", "alg:2:2"], "asan"), rd("csv", 5, 0, ["--family", alg(8, 2, 2, 2)], "asan"), rd("csvmut", 3, 1, ["--base", 0], "asan"), rd("csvmut", 3, 0, ["--base", 3], "asan")]
    if deep:
        J += [rd("csvmut", 5, 1, ["--base", k, "--pairs", 1], deadline=250) for k in (3, 0)] + [rd("csvmut", 4, h, ["--base", k], "asan") for k in (1, 2) for h in (0, 1)] + [rd("csv", 5, 1, ["--family", "alpha:5:0,1,3", "--prob", "alg:2:2"])]
    for h in (0, 1):
        J += [rd("csv", c, h, ["--family", "plant:%d:2:2:1000:%d:%s" % (n, q, sc), "--prob", "fine:2:1"]) for n, c, q, sc in ((130, 130, -30, 0.37), (260, 260, 30000, 12.5), (261, 260, 300, 1))]
    J += [rd("csv", 400, 1, ["--family", "plant:400:1:1:10:300:0.37", "--prob", "fine:2:1"])]
    return J


@prop("P22", REAL + "The reader is run in a process of its own on TSPLIB files with every tuple of points of a lattice, 8 headers and 8 formats, every other edge weight type, and on every truncation, replaced or inserted byte and deleted or doubled range of small files; the oracle classifies each text as one that must be accepted (then the graph is compared), must be rejected, or may be either.", assumptions=["Files with odd white space, more than one edge weight type line or a number of nodes other than their DIMENSION may be accepted or rejected; only memory safety is checked on them."])
def _(deep):
    J = [rd("none", 5)]
    for h in (0, 1):
        J += [rd("tsp", 5, h, ["--n", 3]), rd("tsp", 3, h, ["--n", 3, "--gx", 2, "--scale", "1000.5"]), rd("tsp", 5, h, ["--n", 4, "--gx", 2, "--scale", "0.001"]), rd("tsp", 9, h, ["--n", 9, "--gx", 3]), rd("tsp", 5, h, ["--n", 4, "--types", 1]),
              rd("tsp", 5, h, ["--n", 6, "--gx", 1]), rd("tsp", 5, h, ["--n", 12])]
        J += [rd("tsp", c, h, ["--n", n, "--scale", sc]) for n, c, sc in ((32, 40, "0.37"), (40, 40, "1000.5"), (41, 40, 1), (100, 100, "12.25"), (101, 100, 1))]
        J += [rd("tspmut", 5, h, ["--base", k]) for k in (0, 1, 2)] + [rd("tspmut", 4, h, ["--base", 2])]
    J += [rd("tspmut", 5, 0, ["--base", 0], "asan"), rd("tspmut", 4, 1, ["--base", 2], "asan"), rd("tsp", 4, 0, ["--n", 4, "--gx", 1], "asan"), rd("tsp", 4, 0, ["--n", 6, "--gx", 1], "asan")]
    if deep:
        J += [rd("tsp", 6, 1, ["--n", 4, "--gx", 3]), rd("tspmut", 5, 1, ["--base", 0, "--pairs", 1], deadline=250), rd("tspmut", 5, 0, ["--base", 1], "asan"), rd("tspmut", 5, 0, ["--base", 2, "--pairs", 1], deadline=250)]
    for h in (0, 1):
        J += [rd("tsp", c, h, ["--n", n, "--scale", sc]) for n, c, sc in ((130, 130, "12.25"), (131, 130, 1)) + (((260, 260, "0.37"), (261, 260, 1)) if h else ())]
    return J


# ------------------------------------------------------------------------------------------------ the Python side and the program as a whole
def py(script, args, **kw):
    return dict(kind="py", script=script + ".py", args=[str(x) for x in args], **kw)


POOLA = "alg:8:8:8:8:1:1:5,7,11|alg:2:2|300|3|0,2,9,40|0.01@alpha:4:1,2,4|zero|729|50|0,3|0.5"
POOLC = "alg:7:4:4:4:100:37:11|zero|64|5|0,30|0.001@alpha:5:1,3|alg:3:3|500|7|0,1,5|2@alg:8:6:6:6:-1:1:5,7|alg:2:2|200|3|0,4,12|0.25"
POOLL = "plant:30:4:4:40:-100:1|zero|48|1|40,300|0.5@plant:60:3:3:1000:50:1|zero|27|1|25,90|2@circle:100:4:1:1|zero|4|1|1,10|1@plant:20:3:3:20:50:1|alg:2:2|100|2|15,400|0.25"
STUBS = "pandas and matplotlib are not installed: stand-ins with the few operations the script uses take their place."


@prop("P24", REAL + "Reports of real runs, with a virtual clock, are read by the script one by one, in threes and in folders of eight with every pattern of interruptions and folders of up to 150, and compared with what the solver held in memory.", assumptions=[CLOCK, STUBS])
def _(deep):
    J = []
    for h in (0, 1):
        J += [py("analyzer", ["--mode", "read", "--pool", p, "--cap", c, "--hybrid", h]) for p, c in ((POOLA, 8), (POOLC, 8), (POOLL, 100))]
        if deep:
            J += [py("analyzer", ["--mode", "read", "--pool", p.replace("|3|", "|1|").replace("|5|", "|1|").replace("|7|", "|1|"), "--cap", c, "--hybrid", h]) for p, c in ((POOLA, 8), (POOLC, 8), (POOLC, 12))]
    return J


@prop("P34", REAL + "Pairs of folders of reports of real runs of both modes, with every pattern of interruptions, are analysed by the script; every number it returns or writes is recomputed from what the solver held in memory.", assumptions=[CLOCK, STUBS])
def _(deep):
    J = []
    for h in (0, 1):
        for p in (POOLA, POOLC, POOLL) if deep else (POOLA, POOLC) if h else (POOLA, POOLL):
            J += [py("analyzer", ["--mode", "aggregate", "--pool", p, "--cap", 100 if p is POOLL else 8, "--hybrid", h, "--rotations", 8 if deep else 2]),
                  py("analyzer", ["--mode", "tables", "--pool", p, "--cap", 100 if p is POOLL else 8, "--hybrid", h, "--variants", 256 if deep else 64])]
    return J


@prop("P23", REAL + "The program itself, main.c included, is run with every number of arguments, every kind of unusable input and output, every set of descriptors closed at the start, a limit on the size of the output after every byte of every report, and every single write, pair of writes and suffix of the writes of a report refused, for four buffer sizes; oracle: the report of the same instance obtained without main.c, with the times left out.", assumptions=["Writes refused only once are simulated with a stream of the C library (fopencookie) put in place of the one that freopen opens; the limits on the size of the file are those of the kernel."])
def _(deep):
    return [py("cli", ["--mode", m, "--hybrid", h, "--cap", c]) for h in (0, 1) for c in ((5, 7, 9) if deep else (5,)) for m in ("args", "full", "writes")]


@prop("P25", REAL + "The driver is run, as from the command line, in a scratch copy of the tree where it builds the solver itself, for every range over files of four instances (and ranges beyond them), ranges around the tenth of files of twelve, several sizes, both modes, clean and with files of earlier runs in place; oracle: distances, report of the same csv file from the solver without main.c, cities and layout of the result file, and that no other file changes. In hybrid mode the network is a stand-in that records its arguments, folder and instance.", assumptions=["The network is not installed: a stand-in writes the csv file in hybrid mode."])
def _(deep):
    J = [py("driver", []), py("driver", ["--sizes", "20h,21h,49h,50h,51h,100h,101h,50c", "--ranges", "1-1", "--styles", 1]),
         py("driver", ["--sizes", "4c,4h", "--lines", 12, "--ranges", "9-10,8-11,10-12,10,11,0-12,12-13,9-9"])]
    if deep:
        J += [py("driver", ["--styles", 3]), py("driver", ["--sizes", "6c,8c,9c,10c,7h,8h,9h,10h", "--styles", 3]), py("driver", ["--sizes", "3c,3h,5c,5h", "--lines", 101, "--ranges", "98-101,99-100,100,101,100-102,9-20"])]
    return J


NETSTUB = "torch, sklearn and matplotlib are not installed: stand-ins with the few operations the code uses take their place, and a table of probabilities takes that of the network."


@prop("P26", REAL + "write_adjacency_matrix on every assignment of probabilities over an alphabet to small matrices and on parametric ones for larger networks, for instances smaller, equal and larger than the network (every choice of the cities that are seen); the whole of main() with the network replaced by a table; files are read back, also by the csv reader of the solver.", assumptions=[NETSTUB])
def _(deep):
    J = [py("network", ["--mode", "write"]), py("network", ["--mode", "pipeline", "--variants", 2]), py("network", ["--mode", "pipeline", "--sizes", "4:3,5:3,6:3,6:5,7:4,9:5,12:5,21:20,25:20", "--variants", 3]), py("network", ["--mode", "pipeline", "--sizes", "101:100,103:100", "--variants", 1])]
    if deep:
        J += [py("network", ["--mode", "write", "--sizes", "2:4,3:4,4:4,5:4,2:3,3:3,4:3,5:3,6:3", "--alpha", 3, "--wide", 20000]), py("network", ["--mode", "write", "--sizes", "2:3,3:3,4:3,5:3", "--alpha", 6]),
              py("network", ["--mode", "pipeline", "--variants", 12]), py("network", ["--mode", "pipeline", "--sizes", "50:100,75:100,100:100,35:50,101:100,110:100,150:100,200:100", "--variants", 3]),
              py("network", ["--mode", "write", "--sizes", "2:5,3:8,5:9,7:7,7:16,9:20,8:5,9:4", "--wide", 8000])]
    return J


@prop("P27", REAL + "add_dummy_cities for every size of instance and several sizes of network, with every outcome of the random draws of the first offset (of the first two for the smallest), instances with a city in the corner and with two cities in the same place; the padded file is parsed independently and read back with get_instance.", assumptions=[NETSTUB, "The random numbers are those of numpy.random.randint and numpy.random.choice; the draws after the enumerated ones follow a fixed sequence."])
def _(deep):
    return [py("network", ["--mode", "pad", "--max-n", 9 if deep else 6, "--max-m", 50 if deep else 25]), py("network", ["--mode", "pipeline", "--sizes", "2:20,3:7,7:20,11:20,19:20", "--variants", 1])] + ([py("network", ["--mode", "pad", "--max-n", 19, "--max-m", 100, "--two", 1])] if deep else [])


@prop("P33", REAL + "Every file of 1, 2 and 4 lines with every batch size, every order in which the lines are delivered, every number of neighbours, line endings of both kinds found in the data files; every tour of up to 5 cities through the reader and of up to 6 through the tour helpers.", assumptions=[NETSTUB])
def _(deep):
    d = ["--deep", 1] if deep else []
    return [py("network", ["--mode", "reader"] + d), py("network", ["--mode", "tours"] + d), py("network", ["--mode", "pipeline", "--sizes", "3:3,5:5,20:20,4:5", "--variants", 1])]


@prop("P32", REAL + "convert_custom_euclidean on every tuple of points of a lattice with three headers, four endings and two formats, convert on every matrix over an alphabet, convert_all_file on every set of files.", assumptions=["tsplib95 is not installed, and networkx is newer than the script expects: stand-ins load the matrices and give to_numpy_matrix its meaning."])
def _(deep):
    J = [py("convert", ["--mode", "euclid", "--n", n, "--gx", g, "--scale", s]) for n, g, s in ((1, 3, 1000), (2, 4, 1), (3, 3, 1), (4, 2, 0.37))] + \
        [py("convert", ["--mode", "explicit", "--n", 2]), py("convert", ["--mode", "explicit", "--n", 3]), py("convert", ["--mode", "explicit", "--n", 4, "--alpha", "0,1,7"]), py("convert", ["--mode", "explicit", "--n", 3, "--sym", 0, "--alpha", "0,2,5"]), py("convert", ["--mode", "folder"])]
    if deep:
        J += [py("convert", ["--mode", "euclid", "--n", n, "--gx", g, "--scale", s]) for n, g, s in ((4, 3, 1), (3, 4, 0.001), (5, 2, 7))] + [py("convert", ["--mode", "explicit", "--n", 4, "--alpha", "0,1,7,100000"]), py("convert", ["--mode", "explicit", "--n", 5, "--alpha", "0,3,11"])]
    return J


@prop("P35", REAL + "The splitting script for every number of lines and size of the validation part within bounds, and the generating script for every tour of 3 cities and a fifth of those of 4 that the exact solver may return.", assumptions=["concorde and pandas are not installed: a stand-in returns the tours that the harness enumerates."])
def _(deep):
    return [py("convert", ["--mode", "split", "--lines", 12 if deep else 6]), py("convert", ["--mode", "generate"])]


@prop("P37", REAL + "One layer on every combination of sizes, dimensions, aggregations and several patterns of weights and features; the whole network on small instances for every combination of depths, aggregations and styles, with every relabelling of the cities; the losses for every target of three cities; every subset of eight settings. Oracle: the documented equations, in numpy and double precision.", assumptions=[NETSTUB, "The parameters of the network follow patterns that differ everywhere; the operations of the stand-in have the meaning the documentation of torch gives them."])
def _(deep):
    d = ["--deep", 1] if deep else []
    return [py("gcn", ["--mode", m] + d) for m in ("layers", "model", "loss", "config")]


@prop("P38", REAL + "Beam search on every matrix of probabilities of three cities over an alphabet and on parametric ones of four and five (six), for every beam width of a list up to the number of tours and beyond, with fixed and random starts, both kinds of predictions; edge errors for every prediction on three cities. Oracle: an independent beam search; where two paths at the edge of the beam are within the accuracy of single precision, only validity and length are judged.", assumptions=[NETSTUB])
def _(deep):
    if deep:
        return [py("gcn", ["--mode", "beam", "--deep", 1, "--alpha", a, "--wide", w, "--batch", b]) for a, w, b in ((4, 3000, 6), (2, 600, 5), (3, 1500, 1))] + [py("gcn", ["--mode", "metrics", "--deep", 1])]
    return [py("gcn", ["--mode", "beam"]), py("gcn", ["--mode", "beam", "--alpha", 2, "--wide", 60, "--batch", 1]), py("gcn", ["--mode", "metrics"])]


@prop("P39", REAL + "The script that solves a file exactly is run as from the command line for files of one to three lines, every tour of 3 and 4 cities (some of 5) returned by the exact solver, lines with and without tours, and results of an earlier run in place.", assumptions=["concorde is not installed: a stand-in returns the tours, times and numbers of nodes that the harness enumerates."])
def _(deep):
    return [py("convert", ["--mode", "reference"] + (["--deep", 1] if deep else []))]


@prop("P40", "Every assignment of the integer program of the exact reference solver is enumerated by an interpreter of its model file: all 0/1 matrices up to 5 cities, all successor and predecessor functions of 5 and 6 (7), all permutations of 7 and 8 (9), rotations and pairs of subtours up to 24 (50). For each, the constraints are evaluated and the remaining variables decided exactly by shortest paths over the difference constraints; oracle: following the successors.", assumptions=["CPLEX is not installed: the meaning of the model file is that of the interpreter in harness/opl.py. Statements that it does not know are reported as not judged."])
def _(deep):
    x = ["--deep", 1] if deep else []
    return [py("opl", ["--mode", "all"]), py("opl", ["--mode", "successors"] + x), py("opl", ["--mode", "data"] + x)]


@prop("P41", REAL + "Bounding with every constraint matrix, start vertex and graph of the families, with incumbents at eight distances from the minimum 1-tree and inherited bounds at seven distances from the incumbent (in units of the tolerance); whole searches compared with the stated loop performed step by step by the harness with the same steps.", assumptions=[CLOCK, CONS])
def _(deep):
    J = []
    for h in (0, 1):
        p = ["--prob", "alg:2:2"] if h else []
        J += [sub("prune", 3, h, ["--family", "alpha:3:1,2,5"]), sub("prune", 4, h, ["--family", "alpha:4:1,3"]), sub("prune", 5, h, ["--family", "alpha:4:0,1,4"]), sub("prune", 5, h, ["--family", alg(5, 1, 1, 1, mods="7,11")]),
              sub("prune", 6, h, ["--family", alg(6, 2, 2, 1, off=40, mods="97"), "--space", "few:3"] + p), sub("prune", 8, h, ["--family", "plant:8:1:1:20:50:1", "--space", "few:1"]),
              sub("loop", 5, h, ["--family", "alpha:5:1,3,4"]), sub("loop", 6, h, ["--family", "alpha:6:0,1"]), sub("loop", 4, h, ["--family", "alpha:4:0,1,3"] + (["--prob", "alg:3:3"] if h else [])),
              sub("loop", 8, h, ["--family", alg(8, off=-1)] + p), sub("loop", 9, h, ["--family", alg(9)] + p), sub("loop", 11, h, ["--family", alg(10)]), sub("loop", 9, h, ["--family", alg(9, 6, 6, 4, 100, mods="97,397")] + p), sub("loop", 12, h, ["--family", alg(12, 4, 4, 4), "--polls", 4000])]
        J += [sub("loop", n, h, ["--family", "plant:%d:4:4:%s:1" % (n, f), "--polls", 600] + (["--prob", "fine:2:2"] if h and k == 0 else [])) for n in (16, 24, 40) for k, f in enumerate(("20:50", "40:-100"))] + [sub("loop", 30, h, ["--family", "circle:30:8:1:1", "--polls", 600])]
        if deep:
            J += [sub("prune", 4, h, ["--family", "alpha:4:1,2,4"]), sub("prune", 5, h, ["--family", alg(5, 2, 2, 2, mods="7,11")] + p), sub("prune", 6, h, ["--family", alg(6, 1, 1, 1, mods="11")]), sub("prune", 7, h, ["--family", alg(7, 2, 2, 2, mods="11,29"), "--space", "few:2"] + p),
                  sub("loop", 6, h, ["--family", "alpha:6:1,2"] ), sub("loop", 12, h, ["--family", alg(12), "--polls", 20000]), sub("loop", 14, h, ["--family", alg(14, 4, 4, 4), "--polls", 20000]), sub("loop", 5, h, ["--family", "alpha:5:1,3"] + (["--prob", "alg:11:11"] if h else []))]
    for h in (0, 1):
        J += [sub("loop", n, h, ["--family", "plant:%d:%d:1:20:50:1" % (n, 2 if n == 130 else 1), "--polls", q]) for n, q in ((130, 200),) + (((260, 530),) if h else ())]
    return J


@prop("P42", REAL + "Every ordered choice of the instances of batches, with tours, connections, decoded tours and probabilities that differ in each, the drawing calls being recorded by axes; neighbour ranks of data files for every order and size of batches. Oracle: what was put in.", assumptions=[NETSTUB, "matplotlib is replaced by a recorder; edges that are not red are connections, the heat map is the second drawing of a figure.", "Neighbours at equal distances may be ranked either way."])
def _(deep):
    d = ["--deep", 1] if deep else []
    return [py("plots", ["--mode", "plots"] + d), py("plots", ["--mode", "ranks"] + d)]


@prop("P43", REAL + "The whole of main() with the network of the repository, the settings and checkpoint files of several network sizes (settings, depths and parameters differ between the sizes and from those of decoy checkpoints) in the same folder: every sequence of up to three runs over a pool of instances and sizes, and every order of the cities of small instances. Oracle: the equations of the network in numpy with the parameters of the right checkpoint, and the probabilities of the same cities in another order.", assumptions=[NETSTUB, "The parameters follow patterns; torch.load is replaced by a reader of files written by the harness, with the names that the network gives its parameters."])
def _(deep):
    return [py("network", ["--mode", "trained"] + (["--deep", 1] if deep else []))]


@prop("P44", "Runs the repository's driver itself (an audit hook, fsync and the ways of starting processes are the points where it can be stopped), with the real solver and stand-ins for cmake, make and the network. One fault at every point of every run of a pool (the driver dies before each of its effects; each step fails in three to eight ways), on clean and on used trees, then every run of the pool without faults; every pair of faults in two runs, then a run without faults. Oracle: the reports of runs without faults.", assumptions=["cmake, make and the network are replaced by stand-ins that work on the same files; the network's files are cut off, missing or left as they were when it fails.", "A process that dies loses what it has not handed to the operating system; what it has is kept.", "The driver starts processes through subprocess.run, call, check_call or check_output."])
def _(deep):
    d = ["--deep", 1] if deep else []
    return [py("faults", ["--mode", "single"] + d), py("faults", ["--mode", "pairs"] + d)]


@prop("P45", "Runs the repository's driver, its network program with the network of the repository, and the real solver one after the other on every data file of the families, both modes in the same tree. Oracle: the shortest tour by enumeration of all tours, by dynamic programming over sets of cities, or the order around a convex figure.", assumptions=[NETSTUB, "cmake and make are replaced by stand-ins that put in place the solver compiled by the harness with the options requested.", "Settings and parameters of the networks are written by the harness (patterns)."])
def _(deep):
    return [py("chain", ["--mode", "chain"] + (["--deep", 1] if deep else []))]
