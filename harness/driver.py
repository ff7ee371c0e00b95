"""P25: the driver HybridSolver.py in a scratch copy of the tree: it builds the solver itself, writes the instances, runs the
solver and completes the reports. In hybrid mode the network is replaced by a stand-in that records what it is given."""
import itertools, math
from pylib import *

DIR = tempfile.mkdtemp(prefix="drv", dir=WORK)
SRC = REPO + "/src/HybridSolver"
SIZES = [(int(x[:-1]), x[-1] == "h") for x in arg("--sizes", "3c,4c,5c,7c,3h,4h,5h,6h").split(",")]
LINES = argi("--lines", 4)
PY = sys.executable
NET = r'''
import json, os, sys
log = open(os.environ["DRV_LOG"], "a")
n = int(sys.argv[2])
path = "data/hyb_tsp/test_%d_nodes_temp.txt" % n
text = open(path).read() if os.path.exists(path) else None
log.write(json.dumps({"argv": sys.argv[1:], "cwd": os.getcwd(), "temp": text}) + "\n")
log.close()
c = [float(x) for x in text.split(" output")[0].split()]
c = [(c[i], c[i + 1]) for i in range(0, len(c), 2)]
with open(sys.argv[1], "w") as f:
    f.write(";".join("(%r, %r)" % p for p in c) + "\n")
    for i in range(n):
        f.write("".join("(%r, %r);" % (((c[i][0] - c[j][0]) ** 2 + (c[i][1] - c[j][1]) ** 2) ** 0.5, 0.0 if i == j else ((i + j) % 5) / 4.0) for j in range(n)) + "\n")
sys.exit(int(os.environ.get("DRV_FAIL", "0")))
'''


def points(n, inst, style):
    out = []
    for k in range(n):
        a = 2 * math.pi * k / n
        if style == 0:
            x, y = 0.5 + 0.4 * math.cos(a + inst), 0.5 + 0.3 * math.sin(a + inst * 0.5 + 0.2 * (k % 2 if n < 12 else 0))
        elif style == 1:
            x, y = round(((7 * k + 3 * inst) % 11) / 10 + k * 0.001, 4), round(((5 * k * k + inst) % 13) / 12, 3)
        else:
            x, y = -100.5 + 17.25 * ((3 * k + inst) % n) + k, 1e-3 * (k * k + inst) if k % 2 else 12.0
        out.append((x, y))
    return out


def lines(n, style):
    out = []
    for i in range(1, LINES + 1):
        s = " ".join("%r %r" % p for p in points(n, i, style))
        if style != 1:
            s += " output " + " ".join(str(k + 1) for k in range(n)) + " 1"
        out.append(s)
    return out


def expect_range(r):
    if "-" in r:
        a, b = r.split("-")
        a = int(a) or 1
        return list(range(a, int(b) + 1))
    return list(range(1, int(r) + 1))


def ranges():
    out = ["%d-%d" % (a, b) for a in range(0, 5) for b in range(a, 5) if b] + ["%d" % k for k in range(1, 5)] + ["3-2", "4-1", "0-0", "4-5"]
    return out


def setup(k):
    d = "%s/t%d" % (DIR, k)
    shutil.copytree(SRC, d, ignore=lambda p, names: [x for x in names if (os.path.relpath(p, SRC) == "." and x in ("data", "results", "cmake-build", "build")) or x in ("logs", "__pycache__") or x.endswith("_nodes.txt")])
    open(d + "/main/graph-convnet-tsp/main.py", "w").write(NET)
    os.makedirs(d + "/main/graph-convnet-tsp/data/hyb_tsp", exist_ok=True)
    return {"d": d, "built": set()}


EMIT = {}


def norm(t):
    return re.sub(r"(at time: |elapsed time = |time to obtain = )-?[0-9.]+", r"\1T", t)


def reference(csvs, cap, hy):
    if not csvs:
        return []
    d = tempfile.mkdtemp(dir=DIR)
    open(d + "/list", "w").write("\n".join(csvs) + "\n")
    subprocess.run([EMIT[cap, hy], "--csvs", d + "/list", "--dir", d], check=True, stdout=subprocess.DEVNULL, timeout=100)
    out = [norm(open("%s/r%d.txt" % (d, k)).read()) for k in range(len(csvs))]
    shutil.rmtree(d)
    return out


def drive(d, n, hy, r, env=None):
    main = d + "/main"
    cmd = [PY, "-B", "HybridSolver.py", "--range_instances", r, "--num_nodes", str(n)] + (["--hybrid"] if hy else [])
    p = subprocess.Popen(cmd, cwd=main, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors="replace",
                         env=dict(os.environ, DRV_LOG=d + "/net.log", PYTHONDONTWRITEBYTECODE="1", **(env or {})))
    try:
        out, _ = p.communicate(timeout=100)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        fail("the driver does not end: %s" % cmd)
    return p.returncode, out


def parse_csv(path):
    t = open(path).read().split("\n")
    pair = re.compile(r"\(\s*([^,()]+)\s*,\s*([^,()]+)\s*\)")
    co = [(float(a), float(b)) for a, b in pair.findall(t[0])]
    rows = [[(float(a), float(b)) for a, b in pair.findall(x)] for x in t[1:] if x.strip()]
    return co, rows


def case(i, ctx):
    j = i // len(SIZES)
    n, hy = SIZES[(i + j * len(SIZES) // 8) % len(SIZES)]        # one tree after the other is used for all sizes and both modes
    r = RANGES[j % len(RANGES)]; j //= len(RANGES)
    style, stale = STYLES[j % len(STYLES)]
    d = ctx["d"]
    note("%d cities, %s, range %s, style %d, stale files %d" % (n, "hybrid" if hy else "classic", r, style, stale))
    L = lines(n, style)
    hyb = d + "/main/graph-convnet-tsp/data/hyb_tsp"
    for p in (d + "/data", d + "/results"):
        shutil.rmtree(p, ignore_errors=True)
    for f in os.listdir(hyb):
        os.remove(hyb + "/" + f)
    if os.path.exists(d + "/net.log"):
        os.remove(d + "/net.log")
    src = "%s/test_%d_nodes.txt" % (hyb, n)
    text = "\n".join(L) + ("\n" if style != 2 else "")
    open(src, "w").write(text)
    dd = "%s/data/AdjacencyMatrix/tsp_%d_nodes" % (d, n)
    rd = "%s/results/AdjacencyMatrix/tsp_%d_nodes_%s" % (d, n, "hybrid" if hy else "classic")
    want = expect_range(r)
    exists = [k for k in want if k <= len(L)]
    old = {}
    if stale:
        os.makedirs(dd); os.makedirs(rd)
        for k in range(1, LINES + 2):
            old[dd + "/tsp_test_%d.csv" % k] = old[rd + "/tsp_result_%d.txt" % k] = "left by an earlier run %d\n" % k * 300
        for p, t in old.items():
            open(p, "w").write(t)
    code, out = drive(d, n, hy, r)
    count("executions"); count("transitions", len(exists))
    if len(exists) == len(want) and code != 0:
        fail("the driver ends with status %d: %s" % (code, out[-3000:]))
    if len(exists) != len(want) and code == 0:
        fail("the driver ends with status 0 although instance %s does not exist: %s" % (sorted(set(want) - set(exists)), out[-2000:]))
    if open(src).read() != text:
        fail("the data file was modified")
    # exactly the files of the range
    for base, name in ((dd, "tsp_test_%d.csv"), (rd, "tsp_result_%d.txt")):
        have = set(os.listdir(base)) if os.path.isdir(base) else set()
        exp = {name % k for k in exists} | {os.path.basename(p) for p in old if p.startswith(base + "/")}
        if have != exp:
            fail("files in %s: %s instead of %s" % (os.path.relpath(base, d), sorted(have), sorted(exp)))
    for p, t in old.items():
        k = int(re.findall(r"(\d+)\.", os.path.basename(p))[0])
        if k not in exists and open(p).read() != t:
            fail("%s of another instance was changed" % os.path.relpath(p, d))
    refs = reference([dd + "/tsp_test_%d.csv" % k for k in exists], n, hy)
    last = 0
    for k, ref in zip(exists, refs):
        pts = points(n, k, style)
        co, rows = parse_csv(dd + "/tsp_test_%d.csv" % k)
        if co != pts:
            fail("instance %d: the csv file has the cities %s instead of %s" % (k, co, pts))
        if len(rows) != n or any(len(x) != n for x in rows):
            fail("instance %d: the matrix of the csv file has %s entries per row" % (k, [len(x) for x in rows]))
        for a in range(n):
            for b in range(n):
                w = math.hypot(pts[a][0] - pts[b][0], pts[a][1] - pts[b][1])
                if abs(rows[a][b][0] - w) > 1e-12 * (1 + w) or (not hy and rows[a][b][1] != 0):
                    fail("instance %d: entry %d %d of the csv file is %s, the distance is %r" % (k, a, b, rows[a][b], w))
        p = rd + "/tsp_result_%d.txt" % k
        t = open(p).read()
        m = re.match(r"(?s)(.*)\nNodes: \n(.*)\nTime taken: (\S+)s\n$", t)
        if not m:
            fail("instance %d: the result file does not end with the cities and the time taken: %s" % (k, t[-1500:]))
        if norm(m.group(1)) != ref:
            fail("instance %d: the result file does not have the report of its instance:\n%s\ninstead of\n%s" % (k, m.group(1), ref))
        cities = [re.match(r"\t(\d+) : (\S+) (\S+)$", x) for x in m.group(2).split("\n") if x]
        if [(int(c.group(1)), float(c.group(2)), float(c.group(3))) if c else None for c in cities] != [(q, x, y) for q, (x, y) in enumerate(pts)]:
            fail("instance %d: the cities in the result file are %s instead of %s" % (k, m.group(2), pts))
        el = float(m.group(3))
        if not 0 <= el < 100:
            fail("instance %d: time taken %r" % (k, el))
        ns = os.stat(p).st_mtime_ns
        if ns < last:
            fail("instance %d was solved before the previous one" % k)
        last = ns
    log = [json.loads(x) for x in open(d + "/net.log")] if os.path.exists(d + "/net.log") else []
    if not hy and log:
        fail("the network was run in classic mode")
    if hy:
        size = 20 if n <= 20 else 50 if n <= 50 else 100
        if len(log) != len(exists):
            fail("the network was run %d times for %d instances" % (len(log), len(exists)))
        for k, e in zip(exists, log):
            if [os.path.realpath(e["argv"][0])] + e["argv"][1:] != [os.path.realpath(dd + "/tsp_test_%d.csv" % k), str(n), str(size)]:
                fail("instance %d: the network got the arguments %s" % (k, e["argv"]))
            if os.path.realpath(e["cwd"]) != os.path.realpath(d + "/main/graph-convnet-tsp"):
                fail("the network was run in %s" % e["cwd"])
            if (e["temp"] or "").rstrip("\n") != L[k - 1]:
                fail("instance %d: the network was given the instance %r instead of %r" % (k, e["temp"], L[k - 1]))
        left = [f for f in os.listdir(hyb) if f != os.path.basename(src)]
        if left and code == 0:
            fail("files left among the instances: %s" % left)
    outcome((n, hy, r, style, code, tuple(refs)))
    if i % 37 == 5:
        sample("%d cities, %s, range %s: instances %s, status %d" % (n, "hybrid" if hy else "classic", r, exists, code))


if __name__ == "__main__":
    try:
        RANGES = ranges() if not arg("--ranges") else arg("--ranges").split(",")
        STYLES = [(0, 0), (1, 1), (2, 0)][:argi("--styles", 2)]
        import concurrent.futures
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            f = {(n, h): ex.submit(build_emit, "%s/emit%d%d" % (DIR, n, h), n, int(h)) for n, h in SIZES}
            EMIT = {k: v.result() for k, v in f.items()}
        rc = run("driver, %s cities (c classic, h hybrid), %d ranges of instances, %d kinds of files" % (arg("--sizes", "3c,4c,5c,7c,3h,4h,5h,6h"), len(RANGES), len(STYLES)), len(SIZES) * len(RANGES) * len(STYLES), case, setup)
    finally:
        shutil.rmtree(DIR, ignore_errors=True)
    sys.exit(rc)
