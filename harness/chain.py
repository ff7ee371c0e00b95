"""P45: the whole chain from a data file to a result: the driver, in hybrid mode the network program with the network of the
repository (on minitorch, with settings and checkpoints written by the harness) in its real place, and the real solver."""
import itertools, math
import numpy as np
from pylib import *
import faults as F
import network as N
import minitorch, refnet

D = F.D
SIZES = (20, 50, 100)
MAINCODE = []


class Chain(F.Box):
    """cmake, make: stand-ins that choose the solver for the options; network: the real program in a process of its own"""

    def net(self, cmd, cwd, fault):
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.chdir(cwd)
                args = [x for x in cmd[1:] if not x.startswith("-")]
                sys.argv = args
                N.KMedoids.chosen = lambda total, k: [(7 * j + 3) % total for j in range(k)] if total % 7 else [(5 * j + 3) % total for j in range(k)]
                minitorch.WEIGHTS[0] = refnet.Weights(77)
                with np.errstate(all="ignore"):
                    exec(MAINCODE[0], {"__name__": "__main__", "__file__": args[0]})
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException:
                open(self.d + "/neterror", "w").write(traceback.format_exc())
            os._exit(rc)
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


F.Box = Chain
LATTICE = [(x, y) for y in range(3) for x in range(3)]


def convex(n, k):
    return [(0.5 + 0.45 * math.cos(2 * math.pi * (q + 0.3 * math.sin(q + k)) / n), 0.5 + 0.4 * math.sin(2 * math.pi * (q + 0.3 * math.sin(q + k)) / n)) for q in range(n)]


def shuffled(n, k):
    """a permutation without randomness"""
    out, rest = [], list(range(n))
    x = 17 * k + 5
    while rest:
        x = (x * 29 + 7) % 65537
        out.append(rest.pop(x % len(rest)))
    return out


def spaces(deep):
    """(list of the instances of the data file, first, last, kind of optimum)"""
    out = []
    scales = [(37.5, 0.0), (0.03125, 0.5), (1000.0, -1000.0)]
    for n in (3, 4, 5, 6) + ((7,) if deep else ()):
        groups = list(itertools.combinations(LATTICE, n))
        for q, (s, o) in enumerate(scales):
            inst = []
            for k, g in enumerate(groups):
                p = shuffled(n, k + 100 * q)
                inst.append([(round(g[c][0] * s + o, 9), round(g[c][1] * s - o, 9)) for c in p])
            for b in range(0, len(inst), 7):
                out.append((inst[b:b + 7], "enumerate"))
    g = [(0.11, 0.2), (0.93, 0.31), (0.4, 0.87), (0.62, 0.05)]
    perms = [list(p) for p in itertools.permutations(g)]
    out += [(perms[b:b + 6], "enumerate") for b in range(0, 24, 6)]
    # two cities in the same place
    for n in (3, 4, 5) if deep else (3, 4):
        inst = [[g[c] for c in shuffled(n, k)] for k, g in enumerate(x + (x[k % (n - 1)],) for k, x in enumerate(itertools.combinations([(0.25 * x + 0.1, 0.5 * y) for x, y in LATTICE], n - 1)))]
        out += [(inst[b:b + 7], "enumerate") for b in range(0, len(inst), 7)]
    # decimal forms: many digits, exponents, integers, negative zero, coordinates outside of the unit square
    out.append(([[(1e-05, 2e-05), (0.5, 1.0), (0.123456789012345, 1e-16), (1.0, 0.0)], [(-0.0, 3.0), (4.0, 0.0), (1e3, 2.5), (0.25, 1e2)], [(1 / 3, 2 / 3), (1 / 7, 1e-7), (5e-08, 0.7), (0.999999999999, 0.1)]], "enumerate"))
    for n in (6, 7, 8, 9, 10, 11, 12) if deep else (6, 7, 8, 9, 10):
        for q in range(6 if deep else 2):
            out.append(([D.points(n, k + 2 * q, st) for k in (1, 2) for st in (0, 1)], "dp"))
        out.append(([[(x * 40, y * 40) for x, y in D.points(n, k, 1)] for k in (3, 4, 5)], "dp"))
    for n in (12, 19, 20, 21, 23) + ((30, 49, 50, 51) if deep else (50,)):
        out.append(([[convex(n, k)[c] for c in shuffled(n, k)] for k in (1, 2)], "convex"))
    out.append(([[convex(101, 1)[c] for c in shuffled(101, 3)]], "convex"))
    if deep:
        out.append(([[convex(103, 2)[c] for c in shuffled(103, 4)]], "convex"))
    return out


def best(g, kind):
    n = len(g)
    d = [[math.dist(a, b) for b in g] for a in g]
    if kind == "enumerate":
        return min(sum(d[t[k - 1]][t[k]] for k in range(n)) for t in ((0,) + p for p in itertools.permutations(range(1, n))))
    if kind == "convex":
        cx, cy = sum(x for x, _ in g) / n, sum(y for _, y in g) / n
        t = sorted(range(n), key=lambda k: math.atan2(g[k][1] - cy, g[k][0] - cx))
        return sum(d[t[k - 1]][t[k]] for k in range(n))
    T = {(1 << k, k): d[0][k] for k in range(1, n)}
    for size in range(2, n):
        U = {}
        for (s, k), c in T.items():
            for q in range(1, n):
                if not s >> q & 1:
                    e = (s | 1 << q, q)
                    v = c + d[k][q]
                    if e not in U or v < U[e]:
                        U[e] = v
        T = U
    return min(c + d[k][0] for (s, k), c in T.items())


REPORT = re.compile(r"(?s)SUBPROBLEM with cost = ([-0-9.eainf]+),.*?\n\nCycle with (\d+) edges:([^\n]*)\n.*\nNodes: \n(.*?)\n\nTime taken: [0-9.e-]+s\n$")


def judge(path, g, opt, what):
    if len(set(g)) < len(g):
        # the finding that is listed: distance zero stands for a missing edge in the csv file
        n = len(g)
        d = [[math.dist(a, b) for b in g] for a in g]
        T = [((0,) + p) for p in itertools.permutations(range(1, n))]
        T = [t for t in T if all(d[t[k - 1]][t[k]] > 0 for k in range(n))]
        without = min((sum(d[t[k - 1]][t[k]] for k in range(n)) for t in T), default=None)
        text = open(path).read() if os.path.exists(path) else ""
        if without is None and "Cycle with %d edges" % n not in text and "\nNodes: \n" in text:
            known("coincident-cities", "%s: no tour is found" % what)
            return 0
        if without is not None and without > opt + 1e-6 * n:
            m = REPORT.search(text)
            if m and float(m.group(1)) > opt + 0.00127 * math.sqrt(n):
                known("coincident-cities", "%s: a tour of length %s is reported, there is one of length %r" % (what, m.group(1), opt))
                opt = without
    if not os.path.exists(path):
        fail("%s: no result" % what)
    t = open(path).read()
    m = REPORT.search(t)
    if not m:
        fail("%s: the result holds no tour:\n%s" % (what, t[:3000]))
    n = len(g)
    e = [tuple(int(x) for x in p) for p in re.findall(r"(\d+) <-> (\d+)", m.group(3))]
    if int(m.group(2)) != n or len(e) != n:
        fail("%s: a cycle of %d edges: %s" % (what, len(e), t[:2000]))
    nb = {k: [] for k in range(n)}
    for a, b in e:
        if a not in nb or b not in nb or a == b:
            fail("%s: the edge %d %d" % (what, a, b))
        nb[a].append(b); nb[b].append(a)
    seen, prev, cur = [], None, 0
    while cur not in seen:
        seen.append(cur)
        if len(nb[cur]) != 2:
            fail("%s: city %d has %d edges: %s" % (what, cur, len(nb[cur]), e))
        x = nb[cur][0] if nb[cur][0] != prev else nb[cur][1]
        prev, cur = cur, x
    if len(seen) != n:
        fail("%s: not one cycle over all cities: %s" % (what, e))
    ln = sum(math.dist(g[a], g[b]) for a, b in e)
    big = max(abs(x) for p in g for x in p) + 1
    tol = 2e-6 * n * big
    if abs(float(m.group(1)) - ln) > tol + 1e-6:
        fail("%s: the tour reported with cost %s has length %r: %s" % (what, m.group(1), ln, e))
    if ln > opt + 0.00127 * math.sqrt(n) + tol:
        fail("%s: the tour %s has length %r, there is one of length %r" % (what, seen, ln, opt))
    cities = [tuple(float(x) for x in L.split(":")[1].split()) for L in m.group(4).split("\n")]
    if cities != [tuple(p) for p in g]:
        fail("%s: the cities of the result are %s instead of %s" % (what, cities, g))
    return ln


def case(i, ctx):
    insts, kind = SPACE[i]
    d, n = ctx["d"], len(insts[0])
    note("%d cities, %d instances: %s" % (n, len(insts), insts))
    F.clean(d)
    hyb = d + "/main/graph-convnet-tsp/data/hyb_tsp"
    os.makedirs(hyb)
    tail = ("\n", " \n", "\n")[i % 3]
    text = "".join(" ".join("%r %r" % p for p in g) + (" output " + " ".join(str(k + 1) for k in range(n)) + " 1") + tail for k, g in enumerate(insts))
    open("%s/test_%d_nodes.txt" % (hyb, n), "w").write(text)
    opts = [best(g, kind) for g in insts]
    want = list(range(1, len(insts) + 1))
    lens = []
    for hy in (True, False) if i % 2 else (False, True):
        if os.path.exists(d + "/neterror"):
            os.remove(d + "/neterror")
        np.random.seed(i)
        e, names, status = F.drive(d, n, hy, "1-%d" % len(insts) if i % 3 else str(len(insts)))
        mode = "hybrid" if hy else "classic"
        if status != 0:
            fail("%s mode: the driver ends with %r %s" % (mode, status, open(d + "/neterror").read() if os.path.exists(d + "/neterror") else ""))
        count("transitions", len(insts))
        for k in want:
            lens.append(round(judge(d + "/" + F.results(n, hy) % k, insts[k - 1], opts[k - 1], "%s mode, instance %d %s" % (mode, k, insts[k - 1])), 5))
            if hy:
                rows = [[(float(a), float(b)) for a, b in N.PAIR.findall(x)] for x in open(d + "/" + F.csvs(n) % k).read().split("\n")[1:] if x.strip()]
                pr = {rows[a][b][1] for a in range(n) for b in range(n) if a != b}
                if len(rows) != n or not all(0 <= x <= 1 for x in pr):
                    fail("hybrid mode, instance %d: probabilities %s" % (k, sorted(pr)))
                if max(pr) == 0:
                    fail("hybrid mode, instance %d: no edge has a probability" % k)
    outcome((n, lens))
    if i % 17 == 3:
        sample("%d cities: lengths %s" % (n, lens))


def setup(k):
    ctx = F.setup("c%s" % k)
    net = ctx["d"] + "/main/graph-convnet-tsp"
    shutil.copytree(N.NET, net, dirs_exist_ok=True, ignore=lambda p, names: [x for x in names if x in ("logs", "__pycache__", "data")])
    os.makedirs(net + "/data/hyb_tsp", exist_ok=True)
    os.symlink(LOGS + "/logs", net + "/logs")
    return ctx


if __name__ == "__main__":
    LOGS = N.DIR
    try:
        import argparse, datetime, errno, pprint, runpy  # noqa: F401
        N.MAINMOD, N.REALNET = N.load_trained()
        N.write_logs(LOGS, SIZES, 1)
        MAINCODE.append(compile(open(N.NET + "/main.py").read(), "main.py", "exec"))
        SPACE = spaces(argi("--deep"))
        todo = [(n, h) for n in sorted({len(g) for s, _ in SPACE for g in s}) for h in (False, True)]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for k, p in zip(todo, ex.map(lambda k: build_program("%s/bb%d%d" % (D.DIR, k[0], k[1]), k[0], int(k[1])), todo)):
                F.BIN[k] = p
        SPACE.sort(key=lambda s: -len(s[0][0]))
        rc = run("driver, network and solver, both modes", len(SPACE), case, setup)
    finally:
        os.chdir("/")
        shutil.rmtree(D.DIR, ignore_errors=True)
        shutil.rmtree(N.DIR, ignore_errors=True)
    sys.exit(rc)
