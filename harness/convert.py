"""P32 (conversion of instance files for the reference solver), P35 (files of training data), P39 (exact reference).
--mode euclid | explicit | folder | split | generate | reference"""
import itertools, math, types
import numpy as np
from pylib import *

MODE = arg("--mode", "euclid")
DIR = tempfile.mkdtemp(prefix="cnv", dir=WORK)
PY = "/opt/veriftools/pyvenv/bin/python3" if os.path.exists("/opt/veriftools/pyvenv/bin/python3") else sys.executable
GRAPHS = {}


class Problem:
    def __init__(self, path):
        self.path = path

    def get_graph(self, *a, **k):
        import networkx
        M = GRAPHS.get(os.path.basename(self.path))
        if M is None:
            M = [[int(x) for x in line.split()] for line in open(self.path)]
        g = networkx.Graph() if all(M[i][j] == M[j][i] for i in range(len(M)) for j in range(len(M))) else networkx.DiGraph()
        g.add_nodes_from(range(1, len(M) + 1))
        for i in range(len(M)):
            for j in range(len(M)):
                g.add_edge(i + 1, j + 1, weight=M[i][j])
        return g


def converter():
    import networkx
    if not hasattr(networkx, "to_numpy_matrix"):
        networkx.to_numpy_matrix = lambda g, **k: np.asmatrix(networkx.to_numpy_array(g, **k))
    t = types.ModuleType("tsplib95"); t.load = Problem
    return load(REPO + "/src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py", {"tsplib95": t})


def parse_dat(path):
    t = open(path).read()
    m = re.match(r"\s*n\s*=\s*(\d+)\s*;\s*Cost\s*=\s*\[(.*)\]\s*;\s*$", t, re.S)
    if not m:
        fail("not a data file of the reference solver: %r" % t)
    rows = re.findall(r"\[([^\[\]]*)\]", m.group(2))
    if re.sub(r"\[[^\[\]]*\]", "", m.group(2)).replace(",", "").strip():
        fail("unexpected text between the rows: %r" % t)
    try:
        M = [[float(x) for x in r.split(",")] for r in rows]
    except ValueError:
        fail("a row that is not a list of numbers: %r" % t)
    n = int(m.group(1))
    if len(M) != n or any(len(r) != n for r in M):
        fail("n = %d, but %d rows with %s entries: %r" % (n, len(M), [len(r) for r in M], t))
    return M


def same(M, D, what, tol=1e-12):
    if len(M) != len(D):
        fail("%s: %d cities instead of %d" % (what, len(M), len(D)))
    for i in range(len(D)):
        for j in range(len(D)):
            if abs(M[i][j] - D[i][j]) > tol * (1 + abs(D[i][j])):
                fail("%s: entry %d %d is %r instead of %r" % (what, i, j, M[i][j], D[i][j]))


HEADS = ["NAME: x\nTYPE: TSP\nCOMMENT: a b c\nDIMENSION: %d\nEDGE_WEIGHT_TYPE: EUC_2D\nNODE_COORD_SECTION\n", "NODE_COORD_SECTION\n", "NAME : 1 2 3\nDIMENSION : %d\nEDGE_WEIGHT_TYPE : EUC_2D\nNODE_COORD_SECTION \n"]
TAILS = ["EOF\n", "", "EOF", "-1\nEOF\n"]
FORMS = ["%d %r %r\n", " %d\t%r   %r \n"]


def tsp_text(pts, head, tail, form):
    h = HEADS[head]
    return (h % len(pts) if "%d" in h else h) + "".join(FORMS[form] % (k + 1, x, y) for k, (x, y) in enumerate(pts)) + TAILS[tail]


def dists(p):
    return [[math.hypot(a[0] - b[0], a[1] - b[1]) for b in p] for a in p]


def case_euclid(i, d):
    n, gx, sc = SPACE["n"], SPACE["gx"], SPACE["scale"]
    lay = i % 24; i //= 24
    pts = []
    for _ in range(n):
        i, r = divmod(i, gx * gx)
        pts.append(((r % gx) * sc, (r // gx) * sc - sc))
    text = tsp_text(pts, lay % 3, lay // 3 % 4, lay // 12)
    note(text)
    open(d + "/a.tsp", "w").write(text)
    CONV.convert_custom_euclidean(d + "/a.tsp", d + "/a.dat")
    same(parse_dat(d + "/a.dat"), dists(pts), "points %s" % pts)
    if open(d + "/a.tsp").read() != text:
        fail("the instance was modified")
    count("executions"); count("transitions", n * n)
    outcome(open(d + "/a.dat").read())
    if i % 400 == 3:
        sample("%s: %s" % (pts, open(d + "/a.dat").read()))


def case_explicit(i, d):
    n, A, sym = SPACE["n"], SPACE["alpha"], SPACE["sym"]
    M = [[0] * n for _ in range(n)]
    for a in range(n):
        for b in range(n):
            if (a < b if sym else a != b):
                i, r = divmod(i, len(A))
                M[a][b] = A[r]
                if sym:
                    M[b][a] = A[r]
    note(str(M))
    GRAPHS["m.tsp"] = M
    open(d + "/m.tsp", "w").write("\n".join(" ".join(map(str, r)) for r in M))
    CONV.convert(d + "/m.tsp", d + "/m.dat")
    same(parse_dat(d + "/m.dat"), M, "matrix %s" % M)
    count("executions"); count("transitions", n * n)
    outcome(str(M))
    if i % 300 == 3:
        sample("%s: %s" % (M, open(d + "/m.dat").read()))


NAMES = ["a.tsp", "b.tsp", "c.d.tsp", "notes.txt", "tsp", "e.tsp.bak", "old.dat"]


def case_folder(i, d):
    """convert_all_file on every set of files, with the results of an earlier conversion in place or not"""
    eu, i = i % 2, i // 2
    stale, i = i % 2, i // 2
    names = [x for k, x in enumerate(NAMES) if i >> k & 1]
    note("files %s, %s, earlier results: %d" % (names, "euclidean" if eu else "TSPLIB", stale))
    f = d + "/f"
    shutil.rmtree(f, ignore_errors=True); os.makedirs(f)
    exp, texts = {}, {}
    for k, x in enumerate(names):
        pts = [(q * 1.5 + k, (q * q + k) % 4) for q in range(2 + k % 3)]
        M = [[abs(a - b) * 3 + k for b in range(2 + k % 3)] for a in range(2 + k % 3)]
        GRAPHS.pop(x, None)
        texts[x] = tsp_text(pts, 0, 0, 0) if eu else "\n".join(" ".join(map(str, r)) for r in M) + "\n"
        open(f + "/" + x, "w").write(texts[x])
        if x.endswith(".tsp"):
            exp[x[:-4] + ".dat"] = dists(pts) if eu else M
    if stale:
        for x in exp:
            open(f + "/" + x, "w").write("[9, 9, 9, 9]\n" * 40)
    os.chdir(f)
    CONV.convert_all_file(bool(eu))
    os.chdir(d)
    if sorted(os.listdir(f)) != sorted(set(names) | set(exp)):
        fail("files after the conversion: %s, before: %s" % (sorted(os.listdir(f)), sorted(names)))
    for x in names:
        if open(f + "/" + x).read() != texts[x]:
            fail("%s was modified" % x)
    for x, M in exp.items():
        same(parse_dat(f + "/" + x), M, x)
    count("executions"); count("transitions", len(exp))
    outcome((tuple(names), eu, stale))
    if i == 77:
        sample(S.note)


# ---------------------------------------------------------------- P35
NETDATA = REPO + "/src/HybridSolver/main/graph-convnet-tsp/data"


def case_split(i, d):
    L, val, default, nl, stale = SPLIT[i]
    note("%d lines, %d for validation" % (L, val))
    f = d + "/s"
    shutil.rmtree(f, ignore_errors=True); os.makedirs(f)
    n = 3 + L % 2
    text = "".join("%r 0.5 0.25 0.%d 0.125 0.75 output 1 2 3 1 \n" % (0.1 * k, k) for k in range(L))
    if not nl:
        text = text.rstrip("\n")
    name = "tsp%d_concorde.txt" % n if default else "some data.txt"
    open(f + "/" + name, "w").write(text)
    if stale:
        for x in ("val", "train"):
            open(f + "/tsp%d_%s_concorde.txt" % (n, x), "w").write("old\n" * 50)
    r = subprocess.run([PY, "-B", NETDATA + "/split_train_val.py", "--num_nodes", str(n), "--val_size", str(val)] + ([] if default else ["--filename", name]), cwd=f, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=50)
    if r.returncode:
        fail("status %d: %s" % (r.returncode, r.stdout))
    v, t = (open(f + "/tsp%d_%s_concorde.txt" % (n, x)).read() for x in ("val", "train"))
    lines = text.splitlines(True)
    if v.splitlines(True) != lines[:val] or t.splitlines(True) != lines[val:]:
        fail("%d lines, %d for validation: validation %r, training %r" % (L, val, v, t))
    if open(f + "/" + name).read() != text:
        fail("the data file was modified")
    count("executions"); count("transitions", L)
    outcome((L, val, v))
    if i % 41 == 3:
        sample("%s: %d and %d lines" % (S.note, len(v.splitlines()), len(t.splitlines())))


STUB = r'''
import os, numpy as np
class TSPSolver:
    made = 0
    @classmethod
    def from_data(cls, x, y, norm=None, **k):
        s = cls(); s.n = len(x); s.xy = [(float(a), float(b)) for a, b in zip(x, y)]; return s
    def solve(self, *a, **k):
        code = int(os.environ["GEN_CODE"]) + TSPSolver.made
        TSPSolver.made += 1
        rest, tour = list(range(self.n)), []
        while rest:
            code, r = divmod(code, len(rest)); tour.append(rest.pop(r))
        open(os.environ["GEN_LOG"], "a").write(repr((self.xy, tour)) + "\n")
        class R: pass
        R.tour = np.array(tour)
        return R
'''


def case_generate(i, d):
    n, samples, code, default = GEN[i]
    note("%d samples of %d cities, tours from number %d" % (samples, n, code))
    f = d + "/g"
    shutil.rmtree(f, ignore_errors=True); os.makedirs(f + "/stub/concorde")
    open(f + "/stub/concorde/__init__.py", "w").close()
    open(f + "/stub/concorde/tsp.py", "w").write(STUB)
    open(f + "/stub/pandas.py", "w").close()
    name = "tsp%d_concorde.txt" % n if default else "out.txt"
    r = subprocess.run([PY, "-B", NETDATA + "/generate_tsp_concorde.py", "--num_samples", str(samples), "--num_nodes", str(n)] + ([] if default else ["--filename", name]), cwd=f,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=50, env=dict(os.environ, PYTHONPATH=f + "/stub", GEN_CODE=str(code), GEN_LOG=f + "/log", PYTHONDONTWRITEBYTECODE="1"))
    if r.returncode:
        fail("status %d: %s" % (r.returncode, r.stdout))
    log = [eval(x) for x in open(f + "/log")]
    lines = open(f + "/" + name).read().split("\n")
    if lines[-1] != "" or len(lines) != samples + 1 or len(log) != samples:
        fail("%d lines for %d samples, %d tours computed" % (len(lines) - 1, samples, len(log)))
    for (xy, tour), line in zip(log, lines):
        tok = line.split()
        k = tok.index("output")
        co = [float(x) for x in tok[:k]]
        if co != [c for p in xy for c in p] or len(xy) != n or any(not 0 <= c < 1 for c in co):
            fail("the line has the cities %s, the tour was computed for %s" % (co, xy))
        if [int(x) - 1 for x in tok[k + 1:]] != tour + tour[:1]:
            fail("the line has the tour %s instead of %s" % (tok[k + 1:], tour))
    count("executions"); count("transitions", samples)
    outcome((n, samples, code))
    if i % 17 == 3:
        sample("%s: %s" % (S.note, lines[0]))


# ---------------------------------------------------------------- P39
REFSTUB = r'''
import os, numpy as np
class Problem:
    @classmethod
    def from_coordinates(cls, xs, ys, norm=None, **k):
        s = cls(); s.xy = [(float(a), float(b)) for a, b in zip(xs, ys)]; s.nx, s.ny = len(xs), len(ys); return s
class Concorde:
    made = 0
    def solve(self, problem, *a, **k):
        code = int(os.environ["GEN_CODE"]) + 7 * Concorde.made
        t, b = 0.25 * (code % 13) + 0.5 * Concorde.made, 3 * code % 11 + Concorde.made
        Concorde.made += 1
        rest, tour = list(range(problem.nx)), []
        while rest:
            code, r = divmod(code, len(rest)); tour.append(rest.pop(r))
        open(os.environ["GEN_LOG"], "a").write(repr((problem.xy, problem.nx, problem.ny, tour, t, b)) + "\n")
        class R: pass
        R.tour, R.running_time, R.bb_nodes = (np.array(tour) if os.environ["GEN_ARRAY"] == "1" else tour), t, b
        return R
'''


def case_reference(i, d):
    n, lines, code, style = REF[i]
    note("%d lines of %d cities, tours from number %d, style %d" % (lines, n, code, style))
    f = d + "/r"
    shutil.rmtree(f, ignore_errors=True); os.makedirs(f + "/stub/concorde"); os.makedirs(f + "/in dir")
    open(f + "/stub/concorde/__init__.py", "w").close()
    open(f + "/stub/concorde/concorde.py", "w").write(REFSTUB)
    open(f + "/stub/concorde/problem.py", "w").write("from concorde.concorde import Problem\n")
    rows, cities = [], []
    for l in range(lines):
        m = n + (l if style & 1 else 0)
        c = [(((7 * k + 3 * l + code) % 23) / 22.0, ((5 * k * k + l + 1) % 17) / 16.0) for k in range(m)]
        if style & 2:
            c = [(a * 1e-3, b * 12345.678) for a, b in c]
        cities.append(c)
        rows.append(" ".join("%r %r" % p for p in c) + (" output " + " ".join(str(1 + (k * 3 + l) % m) for k in range(m)) + " 1 " if style & 4 else ""))
    open(f + "/in dir/data.txt", "w").write("\n".join(rows) + ("" if code % 2 else "\n"))
    if style & 1:
        open(f + "/results.txt", "w").write("old\n" * 40)
    r = subprocess.run([PY, "-B", REPO + "/src/HybridSolver/main/graph-convnet-tsp/data/pyconcorde_solver.py", "in dir/data.txt"], cwd=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=50,
                       env=dict(os.environ, PYTHONPATH=f + "/stub", GEN_CODE=str(code), GEN_LOG=f + "/log", GEN_ARRAY=str(code // 2 % 2), PYTHONDONTWRITEBYTECODE="1"))
    if r.returncode:
        fail("status %d: %s" % (r.returncode, r.stderr))
    log = [eval(x) for x in open(f + "/log")]
    if [x[0] for x in log] != cities or any(x[1] != len(c) or x[2] != len(c) for x, c in zip(log, cities)):
        fail("the instances solved are %s, those of the file are %s" % ([x[0] for x in log], cities))
    out = open(f + "/results.txt").read().split("\n")
    if len(out) != lines + 1 or out[-1] != "":
        fail("%d lines of results for %d instances" % (len(out) - 1, lines))
    vals = []
    for k, (line, (xy, _, _, tour, t, b)) in enumerate(zip(out, log)):
        head = "Result of instance %d: " % k
        if not line.startswith(head):
            fail("line %r for instance %d" % (line, k))
        got = eval(line[len(head):], {"array": list, "np": __import__("numpy")})
        length = sum(math.dist(xy[tour[q]], xy[tour[(q + 1) % len(tour)]]) for q in range(len(tour)))
        vals.append(length)
        if len(got) != 4 or [int(x) for x in got[0]] != tour or float(got[1]) != t or int(got[2]) != b or abs(float(got[3]) - length) > 1e-9 * (1 + length):
            fail("the result of instance %d is %s; the solver returned %s, %g, %d and the length is %r" % (k, line, tour, t, b, length))
    for what, want in (("optimal values", sum(vals) / lines), ("running times", sum(x[4] for x in log) / lines), ("number of nodes explored by branch-and-bound", sum(x[5] for x in log) / lines)):
        m = [x for x in r.stdout.split("\n") if x.startswith("Mean of the " + what + ": ")]
        if len(m) != 1 or abs(float(m[0].split(": ")[1]) - want) > 1e-9 * (1 + abs(want)):
            fail("the mean of the %s is %r, printed: %s" % (what, want, m or r.stdout))
    count("executions"); count("transitions", lines)
    outcome((n, lines, code, style, [round(v, 9) for v in vals]))
    if i % 97 == 3:
        sample("%s: %s" % (S.note, out[0]))


def setup(k):
    d = "%s/w%d" % (DIR, k)
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    return d


if __name__ == "__main__":
    try:
        SPACE = {}
        if MODE in ("euclid", "explicit", "folder"):
            CONV = converter()
        if MODE == "euclid":
            SPACE = {"n": argi("--n", 3), "gx": argi("--gx", 3), "scale": float(arg("--scale", "1"))}
            total, fn = 24 * (SPACE["gx"] ** 2) ** SPACE["n"], case_euclid
        elif MODE == "explicit":
            SPACE = {"n": argi("--n", 3), "alpha": [int(x) for x in arg("--alpha", "0,1,7,1000000").split(",")], "sym": argi("--sym", 1)}
            n = SPACE["n"]
            total, fn = len(SPACE["alpha"]) ** (n * (n - 1) // (2 if SPACE["sym"] else 1)), case_explicit
        elif MODE == "folder":
            total, fn = 4 << len(NAMES), case_folder
        elif MODE == "split":
            SPLIT = [(L, v, df, nl, st) for L in range(0, argi("--lines", 6)) for v in range(0, L + 3) for df in (0, 1) for nl in (0, 1) for st in (0, 1)]
            total, fn = len(SPLIT), case_split
        elif MODE == "reference":
            deep = argi("--deep")
            REF = [(n, l, c, st) for n in ((2, 3, 4, 5) if deep else (3, 4)) for l in (1, 2, 3) for c in range(0, math.factorial(n)) if n < 5 or c % 3 == 0 for st in range(8) if deep or (c + l + st) % 3 == 0]
            total, fn = len(REF), case_reference
        else:
            GEN = [(n, s, c, df) for n in (3, 4) for s in (1, 2, 5) for c in range(0, math.factorial(n), s if n < 4 else 5) for df in (0, 1)]
            total, fn = len(GEN), case_generate
        rc = run("%s %s" % (MODE, SPACE or ""), total, fn, setup)
    finally:
        os.chdir("/")
        shutil.rmtree(DIR, ignore_errors=True)
    sys.exit(rc)
