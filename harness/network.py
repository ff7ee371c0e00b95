"""The Python side around the network (P26, P27, P33, P43). torch, sklearn and matplotlib are not installed: stand-ins with the
few operations that the code uses take their place; the network itself is replaced by a table of probabilities.
--mode write | pipeline | pad | reader | tours | trained"""
import contextlib, itertools, math, pickle, types, warnings
import numpy as np
from scipy.special import softmax as np_softmax
from pylib import *
import minitorch, refnet

warnings.simplefilter("ignore")
MODE = arg("--mode", "write")
NET = REPO + "/src/HybridSolver/main/graph-convnet-tsp"
DIR = tempfile.mkdtemp(prefix="net", dir=WORK)


# ---------------------------------------------------------------- stand-ins
class Unjudged(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise minitorch.Unsupported("%s.%s" % (self.__name__, name))


T = minitorch.Tensor


PERM = [0]


def shuffle(x, *a, **k):
    """the order of delivery is a choice of the harness: the permutation number PERM[0]"""
    x, k, out = list(x), PERM[0], []
    while x:
        k, r = divmod(k, len(x))
        out.append(x.pop(r))
    return out


class KMedoids:
    chosen = None

    def __init__(self, n_clusters, **k):
        self.k = n_clusters

    def fit(self, g):
        g = np.asarray(g)
        idx = KMedoids.chosen(len(g), self.k)
        self.cluster_centers_ = g[idx]
        d = ((g[:, None, :] - self.cluster_centers_[None]) ** 2).sum(-1)
        self.labels_ = d.argmin(axis=1)
        return self


class Net:
    """logits of the probabilities in the table; remembers what it was given"""
    table, seen = None, None

    def __init__(self, config, f, l):
        self.config = config

    def load_state_dict(self, d):
        self.loaded = True

    def eval(self):
        pass

    def cuda(self):
        pass

    def forward(self, x_edges, x_edges_values, x_nodes, x_nodes_coord, y_edges, edge_cw):
        Net.seen = dict(edges=x_edges.a, values=x_edges_values.a, nodes=x_nodes.a, coord=x_nodes_coord.a, target=y_edges.a)
        p = np.asarray(Net.table, dtype=np.float64)
        with np.errstate(divide="ignore"):
            y = np.stack((np.log(1 - p), np.log(p)), axis=-1)[None].astype(np.float32)
        return T(y), 0.0


def modules():
    def mod(name, **kw):
        m = Unjudged(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    minitorch.install()
    mod("sklearn"); mod("sklearn.utils", shuffle=shuffle)
    mod("sklearn.utils.class_weight", compute_class_weight=lambda *a, **k: np.ones(2))
    mod("sklearn_extra"); mod("sklearn_extra.cluster", KMedoids=KMedoids)
    plt = mod("matplotlib.pyplot"); mod("matplotlib", pyplot=plt)
    mod("models"); mod("models.gcn_model", ResidualGatedGCNModel=Net)
    sys.path.insert(0, NET)


def load_main():
    modules()
    return load(NET + "/main.py", name="net_main")


PAIR = re.compile(r"\(\s*([^,()]+)\s*,\s*([^,()]+)\s*\)")


def parse(path):
    t = open(path).read()
    L = t.split("\n")
    if L[-1] != "":
        fail("the csv file does not end with a newline: %r" % t[-200:])
    co = [(float(a), float(b)) for a, b in PAIR.findall(L[0])]
    rows = [[(float(a), float(b)) for a, b in PAIR.findall(x)] for x in L[1:-1]]
    for x in L[1:-1]:
        # the layout that the solver reads: every entry in parentheses and followed by a semicolon
        if PAIR.sub("", x).replace(";", "").strip() or x.count(";") != len(PAIR.findall(x)):
            fail("a row that the solver cannot read: %r" % x)
    if PAIR.sub("", L[0]).replace(";", "").strip() or L[0].count(";") not in (len(co), len(co) - 1):
        fail("cities that the solver cannot read: %r" % L[0])
    return co, rows, t


def pts(n, style):
    if style == 0:
        return [(round(0.05 + ((7 * k + 2) % (n + 3)) / (n + 4) + 0.001 * k, 6), round(((5 * k * k + 1) % 17) / 17, 6)) for k in range(n)]
    if style == 1:
        return [(0.5 + 0.4 * math.cos(2 * math.pi * k / n), 0.5 + 0.4 * math.sin(2 * math.pi * k / n)) for k in range(n)]
    return [(k / (n + 1), 0.25 * (k % 3)) for k in range(n)]


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def f32(x):
    return float(np.float32(x))


SOLVER = {}


def through_solver(path, n, want):
    """the C reader gets from the file the graph it is meant to describe"""
    exe = SOLVER.get(n)
    if not exe:
        return
    r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=50)
    if r.returncode:
        fail("the solver rejects the file: %s" % open(path).read())
    got = {}
    for line in r.stdout.splitlines():
        a, b, w, p = line.split()
        got[min(int(a), int(b)), max(int(a), int(b))] = (float(w), float(p))
    exp = {(a, b): v for (a, b), v in want.items() if a < b and v[0] > 0}
    if sorted(got) != sorted(exp):
        fail("the solver reads the edges %s instead of %s" % (sorted(got), sorted(exp)))
    for k in exp:
        if abs(got[k][0] - exp[k][0]) > 1e-6 * (1 + exp[k][0]) or abs(got[k][1] - exp[k][1]) > 1e-6:
            fail("the solver reads %s for the edge %s, in the file it is %s" % (got[k], k, exp[k]))


# ---------------------------------------------------------------- P26: the file that the solver reads
ALPHA = [0.0, 1.0, 1.2345678e-05, 0.5, 3.1234567e-08, 0.1]


def matrix(m, code, alpha, wide):
    """the code-th assignment of probabilities: off-diagonal entries from the alphabet, or parametric"""
    p = [[0.0] * m for _ in range(m)]
    for i in range(m):
        for j in range(m):
            if i == j:
                continue
            if wide:
                v = (code * (3 * i + 7 * j + 1) + i * j) % 97
                p[i][j] = ALPHA[v % 6] if v % 3 == 0 else v / 97.0
            else:
                code, r = divmod(code, alpha)
                p[i][j] = ALPHA[r]
    return p


def expected(n, m, g, seen, P, vals):
    """n cities g, a network of m nodes with the coordinates seen and probabilities P (float32), distances vals: what the file must hold"""
    W = {}
    if n <= m:
        for i in range(n):
            for j in range(n):
                w = vals[i][j]
                p = P[i][j]
                if i != j:
                    for k in range(n, m):
                        if k % n == j:
                            p = max(p, P[i][k])
                W[i, j] = (w, p)
    else:
        pos = {}
        for k, c in enumerate(seen):
            pos[tuple(c)] = k
        for i in range(n):
            for j in range(n):
                a, b = pos.get(tuple(g[i])), pos.get(tuple(g[j]))
                W[i, j] = (vals[a][b], P[a][b]) if a is not None and b is not None else (0.0 if i == j else dist(g[i], g[j]), 0.0)
    return W


def check_file(path, n, g, W, what, tol=2e-7):
    co, rows, text = parse(path)
    if len(co) != n or any(abs(a[0] - b[0]) > 1e-12 or abs(a[1] - b[1]) > 1e-12 for a, b in zip(co, g)):
        fail("%s: cities %s instead of %s" % (what, co, g))
    if len(rows) != n or any(len(r) != n for r in rows):
        fail("%s: %d rows of %s entries for %d cities: %s" % (what, len(rows), [len(r) for r in rows], n, text[:1500]))
    for (i, j), (w, p) in W.items():
        if abs(rows[i][j][0] - w) > 2e-7 * (1 + w):
            fail("%s: distance %d %d is %r instead of %r" % (what, i, j, rows[i][j][0], w))
        if abs(rows[i][j][1] - p) > tol * (p if p < 0.5 else 1):
            fail("%s: probability %d %d is %r instead of %r: %s" % (what, i, j, rows[i][j][1], p, text[:1500]))
    return rows


def case_write(i, ctx):
    n, m, wide, count_, base, sub = next(x for x in WRITE if x[4] <= i < x[4] + x[3])
    code = i - base
    style = 0
    if n > m:
        subs = list(itertools.combinations(range(n), m)) if math.comb(n, m) <= 60 else [tuple((s * k + s) % n for k in range(m)) for s in range(1, 8) if len({(s * k + s) % n for k in range(m)}) == m]
        medoids = subs[code % len(subs)]
        if code % 2:
            medoids = tuple(reversed(medoids))
        code //= len(subs)
    g = pts(n, style)
    if n < m:
        seen = list(g) + [(g[k % n][0] + 1e-15 * (1 + k), g[k % n][1] - 1e-15 * (1 + k)) for k in range(n, m)]
    elif n > m:
        seen = [g[k] for k in medoids]
    else:
        seen = list(g)
    P = np.array(matrix(m, code, ALPHAS[0] if not wide else 0, wide), dtype=np.float32)
    V = np.array([[dist(a, b) for b in seen] for a in seen], dtype=np.float32)
    note("%d cities, network of %d, probabilities %s%s" % (n, m, P.tolist(), "" if n <= m else ", medoids %s" % (medoids,)))
    path = ctx + "/out.csv"
    flat = [x for c in seen for x in c]
    labels = None
    if n > m:
        labels = np.array([min(range(m), key=lambda k: dist(c, seen[k])) for c in g])
    MAINMOD.write_adjacency_matrix([list(c) for c in g] if n > m else None, T(P[None]), T(V[None]), flat, path, n, labels)
    W = expected(n, m, g, seen, P.astype(float), V.astype(float))
    rows = check_file(path, n, g, W, "%d cities, network of %d" % (n, m))
    if i % 50 == 0:
        through_solver(path, n, {k: rows[k[0]][k[1]] for k in W})
    count("executions"); count("transitions", n * n)
    outcome(open(path).read())
    if i % 701 == 3:
        sample("%d cities, network of %d: %s" % (n, m, open(path).read()))


ALPHAS = [argi("--alpha", 3)]


def spaces_write():
    out, base = [], 0
    for n, m in [tuple(int(y) for y in x.split(":")) for x in arg("--sizes", "2:3,3:3,2:4,4:4,3:7,2:11,5:12,5:3,6:4").split(",")]:
        full = ALPHAS[0] ** (m * (m - 1))
        wide = full > 60000
        c = argi("--wide", 1500) if wide else full
        if n > m and not wide:
            c *= math.comb(n, m)
        out.append((n, m, wide, c, base, None)); base += c
    return out, base


# ---------------------------------------------------------------- P26, P27, P33 together: main()
def case_pipeline(i, ctx):
    n, m, style, tail, v = PIPE[i]
    note("%d cities, network of %d, style %d, line ending %r, variant %d" % (n, m, style, tail, v))
    os.chdir(ctx)
    g = pts(n, style)
    tour = sorted(range(n), key=lambda k: (k * (v + 2)) % n if math.gcd(v + 2, n) == 1 else k)
    line = " ".join("%r %r" % c for c in g) + " output " + " ".join(str(k + 1) for k in tour) + " %d" % (tour[0] + 1) + tail
    temp = "data/hyb_tsp/test_%d_nodes_temp.txt" % n
    open(temp, "w").write(line)
    P = np.array(matrix(m, v * 5 + 3, 0, True))
    np.fill_diagonal(P, 0.25)
    Net.table, Net.seen = P, None
    KMedoids.chosen = lambda total, k: [(j * (2 * v + 3) + 5 + v) % total for j in range(k)] if math.gcd(2 * v + 3, total) == 1 else [(j + 5 + v) % total for j in range(k)]
    np.random.seed(v)
    out = ctx + "/out.csv"
    if os.path.exists(out):
        os.remove(out)
    MAINMOD.main(out, n, m)
    S = Net.seen
    if S is None:
        fail("the network was not run")
    # what the network was given
    coord = [tuple(c) for c in np.asarray(S["coord"])[0].tolist()]
    if S["coord"].shape != (1, m, 2) or S["values"].shape != (1, m, m) or S["edges"].shape != (1, m, m) or S["nodes"].shape != (1, m):
        fail("the network got arrays of shapes", {k: x.shape for k, x in S.items()})
    if n <= m:
        want = [g[k % n] for k in range(m)]
        seen = list(g) + [None] * (m - n)
    else:
        want = [g[k] for k in KMedoids.chosen(n, m)]
        seen = want
    if any(abs(a[0] - b[0]) > 1e-6 or abs(a[1] - b[1]) > 1e-6 for a, b in zip(coord, want)):
        fail("the network got the cities %s instead of %s" % (coord, want))
    D = np.array([[dist(a, b) for b in want] for a in want])
    if np.abs(S["values"][0] - D).max() > 1e-6:
        fail("the network got other distances than those of the cities")
    soft = np_softmax(np.stack((np.log(1 - P), np.where(P > 0, np.log(np.maximum(P, 1e-300)), -np.inf)), axis=-1).astype(np.float32), axis=-1)[..., 1]
    W = expected(n, m, g, seen, soft.astype(float), D.astype(np.float32).astype(float))
    rows = check_file(out, n, g, W, "%d cities, network of %d" % (n, m))
    through_solver(out, n, {k: rows[k[0]][k[1]] for k in W})
    count("executions"); count("transitions", n * n)
    outcome(open(out).read())
    if i % 40 == 1:
        sample("%d cities, network of %d: %s" % (n, m, open(out).read()[:300]))


def spaces_pipe():
    out = []
    for x in arg("--sizes", "2:3,2:5,2:20,3:3,3:7,4:5,4:11,5:5,5:12,6:20,9:20,13:20,19:20,20:20").split(","):
        n, m = (int(y) for y in x.split(":"))
        for style in (0, 1, 2):
            for tail in ("\n", " \n", ""):
                for v in range(argi("--variants", 3)):
                    out.append((n, m, style, tail, v))
    return out


def setup_main(k):
    d = "%s/w%d" % (DIR, k)
    os.makedirs(d + "/data/hyb_tsp", exist_ok=True)
    os.makedirs(d + "/configs", exist_ok=True)
    shutil.copy(NET + "/configs/default.json", d + "/configs/default.json")
    for x in set(arg("--sizes", "20:20,3:3,3:5,3:7,3:11,3:12").split(",")):
        m = int(x.split(":")[1])
        os.makedirs("%s/logs/tsp%d" % (d, m), exist_ok=True)
        json.dump({"expt_name": "tsp%d" % m, "num_nodes": m, "num_neighbors": min(20, m - 1), "batch_size": 20}, open("%s/logs/tsp%d/config.json" % (d, m), "w"))
    os.chdir(d)
    return d


# ---------------------------------------------------------------- P43: main() with the network itself
GIVEN = []
SHAPES = [dict(hidden_dim=4, num_layers=2, mlp_layers=2, aggregation="mean"), dict(hidden_dim=2, num_layers=3, mlp_layers=1, aggregation="sum"), dict(hidden_dim=6, num_layers=1, mlp_layers=3, aggregation="sum")]


def load_trained():
    """the real network, with what it is given recorded"""
    modules()
    del sys.modules["models"], sys.modules["models.gcn_model"]
    import models.gcn_model as GM
    real = GM.ResidualGatedGCNModel

    forward = real.forward

    def recorded(self, *a, **k):
        GIVEN.append((a, k))
        return forward(self, *a, **k)
    real.forward = recorded

    def torch_load(path, *a, **k):
        with open(path, "rb") as f:
            return pickle.load(f)
    sys.modules["torch"].load = torch_load
    M = load(NET + "/main.py", name="net_main")
    return M, real


def settings(m, v):
    """the settings of the network of m nodes in variant v: everything that matters differs between the sizes"""
    return dict(SHAPES[(m + v) % 3], expt_name=("tsp%d" % m, "run_%d" % m)[(m + v) % 2], num_nodes=m, num_neighbors=1 + (m + v) % (m - 1), node_dim=2, voc_nodes_in=2, voc_nodes_out=2, voc_edges_in=3, voc_edges_out=2)


def trained(m, v, w):
    cfg = dict(json.load(open(NET + "/configs/default.json")), **settings(m, v))
    minitorch.WEIGHTS[0] = refnet.Weights(w)
    C = load(NET + "/config.py", name="config_for_reference")
    net = REALNET(C.Settings(cfg), minitorch.FloatTensor, minitorch.LongTensor)
    return net, cfg


def write_logs(d, sizes, v):
    """folders of settings and trained parameters of all sizes; every folder holds a checkpoint, with parameters of its own"""
    shutil.rmtree(d + "/logs", ignore_errors=True)
    for m in sizes:
        c = settings(m, v)
        for name, w in (("tsp%d" % m, 90 + m), (c["expt_name"], 10 + m + 3 * v)):
            os.makedirs("%s/logs/%s" % (d, name), exist_ok=True)
            for f, x in (("best_val_checkpoint.tar", w), ("last_train_checkpoint.tar", w + 40), ("checkpoint_epoch5.tar", w + 41)):
                net, _ = trained(m, v, x)
                state = {"module." + k: t for k, t in net.state_dict().items()}
                with open("%s/logs/%s/%s" % (d, name, f), "wb") as h:
                    pickle.dump({"epoch": 3, "train_loss": 0.3, "val_loss": 0.2, "model_state_dict": state, "optimizer_state_dict": {"state": {}, "param_groups": []}}, h)
        drop = [k for q, k in enumerate(("node_dim", "voc_nodes_in", "voc_nodes_out", "voc_edges_in", "voc_edges_out")) if (m + v + q) % 2]
        json.dump(dict({k: x for k, x in c.items() if k not in drop}, batch_size=20, gpu_id="1", val_filepath="none", test_filepath="none"), open("%s/logs/tsp%d/config.json" % (d, m), "w"))
    minitorch.WEIGHTS[0] = refnet.Weights(77)      # parameters that are not loaded are not those of the checkpoint


def run_main(ctx, n, m, style, v, g=None):
    """one run of the program; the text of the file, after it was compared with the equations"""
    g = g or pts(n, style)
    tour = [(k * (v + 2)) % n for k in range(n)] if math.gcd(v + 2, n) == 1 else list(range(n))
    open("data/hyb_tsp/test_%d_nodes_temp.txt" % n, "w").write(" ".join("%r %r" % c for c in g) + " output " + " ".join(str(k + 1) for k in tour) + " %d" % (tour[0] + 1) + ("\n", " \n", "")[v % 3])
    KMedoids.chosen = lambda total, k: [(j * (2 * v + 3) + 5 + v) % total for j in range(k)] if math.gcd(2 * v + 3, total) == 1 else [(j + 5 + v) % total for j in range(k)]
    out = ctx + "/out.csv"
    if os.path.exists(out):
        os.remove(out)
    GIVEN.clear()
    with np.errstate(all="ignore"):
        MAINMOD.main(out, n, m)
    if not GIVEN:
        fail("the network was not run")
    a, k = GIVEN[-1]
    names = ("x_edges", "x_edges_values", "x_nodes", "x_nodes_coord", "y_edges", "edge_cw")
    X = {**dict(zip(names, a)), **k}
    E, V, C = (np.asarray(minitorch.arr(X[q])) for q in ("x_edges", "x_edges_values", "x_nodes_coord"))
    seen = [g[k % n] for k in range(m)] if n <= m else [g[k] for k in KMedoids.chosen(n, m)]
    if C.shape != (1, m, 2) or np.abs(C[0] - np.array(seen)).max() > 1e-6:
        fail("the network got the cities %s instead of %s" % (C.tolist(), seen))
    D = np.array([[dist(p, q) for q in seen] for p in seen])
    c = settings(m, v % 3)
    if E.shape != (1, m, m) or V.shape != (1, m, m) or np.abs(V[0] - D).max() > 1e-6:
        fail("the network got other distances than those of the cities")
    for r in range(m):
        near = {q for q in range(m) if E[0][r][q] == 1 and q != r}
        far = [D[r][q] for q in range(m) if q not in near and q != r]
        if E[0][r][r] != 2 or len(near) not in (c["num_neighbors"], c["num_neighbors"] - 1) or (far and near and max(D[r][q] for q in near) > min(far) + 1e-9) or any(x not in (0, 1, 2) for x in E[0][r]):
            fail("the network of %d neighbours got the neighbours %s of city %d" % (c["num_neighbors"], E[0][r].tolist(), r))
    net, cfg = REFERENCE[m, v % 3]
    y = refnet.ref_model(net, cfg, E, V, C)[0]
    P = np_softmax(y, axis=-1)[..., 1]
    W = expected(n, m, g, list(g) + [None] * (m - n) if n <= m else seen, P, V[0].astype(float))
    check_file(out, n, g, W, "%d cities, network of %d, settings %s" % (n, m, c), 1e-5)
    count("executions"); count("transitions", n * n)
    return open(out).read(), {q: w[1] for q, w in W.items()}


REFERENCE = {}


def case_trained(i, ctx):
    v, seq, rel = TRAINED[i]
    note("settings %d, runs one after another in the same folder (cities, network): %s%s" % (v, seq, ", relabelled by %s" % (rel,) if rel else ""))
    os.chdir(ctx)
    if SETTINGS[0] != v:
        write_logs(ctx, SIZES, v)
        SETTINGS[0] = v
        for m in SIZES:
            REFERENCE[m, v] = trained(m, v, 10 + m + 3 * v)
        minitorch.WEIGHTS[0] = refnet.Weights(77)
    np.random.seed(i)
    for f in os.listdir(ctx + "/data/hyb_tsp"):
        os.remove(ctx + "/data/hyb_tsp/" + f)
    for q, (n, m) in enumerate(seq):
        text, P = run_main(ctx, n, m, 0, v)
    if rel:
        n, m = seq[-1]
        g = pts(n, 0)
        _, P2 = run_main(ctx, n, m, 0, v, [g[k] for k in rel])
        for a in range(n):
            for b in range(n):
                if abs(P2[a, b] - P[rel[a], rel[b]]) > 1e-5:
                    fail("with the cities in the order %s the probability of %d %d is %r instead of %r" % (rel, rel[a], rel[b], P2[a, b], P[rel[a], rel[b]]))
    outcome(text)
    if i % 60 == 7:
        sample("%s: %s" % (seq, text[:300]))


SETTINGS = [None]


def spaces_trained():
    pool = [(3, 3), (3, 5), (5, 5), (6, 5), (4, 7), (9, 7)] + ([(7, 7), (12, 5), (2, 5)] if argi("--deep") else [])
    out = []
    for v in range(3):
        for k in range(1, 4):
            out += [(v, list(s), None) for s in itertools.product(pool, repeat=k)]
        out += [(v, [(n, n)], list(r)) for n in (3, 5) for r in itertools.permutations(range(n))]
        out += [(v, [(7, 7)], [(s * k + t) % 7 for k in range(7)]) for s in range(1, 7) for t in range(7)]
        out += [(v, [(20, 20)], [(s * k + t) % 20 for k in range(20)]) for s in (1, 3, 7) for t in (0, 1, 9)] + [(v, [(n, 20)], None) for n in (5, 19, 23, 40)] + [(v, [(50, 50)], None), (v, [(40, 50)], None), (v, [(60, 50)], None)]
    return out


# ---------------------------------------------------------------- P27: padding
class Choices:
    """stands for numpy's random numbers: every outcome of the first few draws, then a fixed sequence without repetitions"""

    def __init__(self, code, free):
        self.code, self.free, self.k = code, free, 0

    def one(self, lo, hi):
        if self.free > 0:
            self.free -= 1
            self.code, r = divmod(self.code, hi - lo)
            return lo + r
        self.k = (self.k * 5 + 3) % 65536
        return lo + (self.k // 7) % (hi - lo)

    def randint(self, lo, hi=None, size=None):
        if hi is None:
            lo, hi = 0, lo
        return self.one(lo, hi) if size is None else np.array([self.one(lo, hi) for _ in range(int(np.prod(size)))]).reshape(size)

    def choice(self, a, size=None, **k):
        a = list(range(a)) if isinstance(a, int) else list(a)
        return a[self.one(0, len(a))] if size is None else np.array([a[self.one(0, len(a))] for _ in range(int(np.prod(size)))]).reshape(size)


def case_pad(i, ctx):
    n, m, style, code, free = PAD(i)
    note("%d cities, network of %d, style %d, draws %d" % (n, m, style, code))
    os.chdir(ctx)
    g = pts(n, style)
    if style == 2:
        g[0] = (0.0, 0.0)                       # a city in the corner of the unit square
        if n > 2:
            g[2] = g[1]                         # two cities in the same place
    elif style == 3:
        g = [(round(x * 1800 - 900, 6), round(y * 1e7, 2)) for x, y in g]      # far outside of it
    line = " ".join("%r %r" % c for c in g) + " output " + " ".join(str(k + 1) for k in range(n)) + " 1" + ("\n" if code % 2 else " \n")
    temp = "data/hyb_tsp/test_%d_nodes_temp.txt" % n
    open(temp, "w").write(line)
    ch = Choices(code, free)
    old = np.random.randint, np.random.choice
    np.random.randint, np.random.choice = ch.randint, ch.choice
    try:
        MAINMOD.add_dummy_cities(n, m)
    finally:
        np.random.randint, np.random.choice = old
    t = open(temp).read()
    if len([x for x in t.split("\n") if x.strip()]) != 1:
        fail("the padded file has not one line: %r" % t)
    tok = t.split()
    k = tok.index("output")
    c = [float(x) for x in tok[:k]]
    c = [(c[q], c[q + 1]) for q in range(0, len(c) - 1, 2)]
    if k != 2 * m or len(c) != m:
        fail("the padded file has %d coordinates for %d cities: %r" % (k, m, t))
    if c[:n] != g:
        fail("the cities given are not first and unchanged: %s instead of %s" % (c[:n], g))
    for q in range(n, m):
        o = g[q % n]
        if any(abs(c[q][e] - o[e]) > 1e-13 * max(1, abs(o[e])) for e in (0, 1)):
            fail("city %d is %s and stands for %s" % (q, c[q], o))
        if c[q] in c[:q]:
            fail("city %d is in the same place as city %d: %s" % (q, c.index(c[q]), c[q]))
    tour = [int(x) for x in tok[k + 1:]]
    if len(tour) != m + 1 or tour[0] != tour[-1] or sorted(tour[:-1]) != list(range(1, m + 1)):
        fail("the padded file has not a closed tour over all cities: %s" % tour)
    # and the instance is read back from it
    got = [tuple(x) for x in MAINMOD.get_instance(n)]
    if got != c:
        fail("the padded instance is read as %s" % got)
    count("executions"); count("transitions", m - n)
    outcome(t)
    if i % 3001 == 1:
        sample("%d to %d: %s" % (n, m, t[:200]))


# every outcome of the two draws of an offset: two values of 1..8 and two signs
FIRST = 8 * 8 * 2 * 2
PADS = []


def PAD(i):
    for n, m, style, total, free, base in PADS:
        if base <= i < base + total:
            return n, m, style, i - base, free


def spaces_pad():
    base = 0
    for n in range(2, argi("--max-n", 9) + 1):
        for m in sorted({n + 1, n + 2, 2 * n, 2 * n + 1, 3 * n + 2, 20, argi("--max-m", 25)} | set(range(n + 1, 21) if arg("--all") else [])):
            if m <= n:
                continue
            for style in (0, 1, 2, 3):
                total, free = (FIRST, 4) if not (m == n + 2 and n <= argi("--two", 2)) else (FIRST * FIRST, 8)
                PADS.append((n, m, style, total, free, base)); base += total
    return base


# ---------------------------------------------------------------- P33: batches
def case_reader(i, ctx):
    n, lines_, bs, nb, perm, tail, style = READ[i]
    note("%d cities, %d lines, batches of %d, %d neighbours, order %d, line ending %r" % (n, lines_, bs, nb, perm, tail))
    data, text = {}, []
    for l in range(lines_):
        code = (i + 7 * l) % math.factorial(n - 1)
        rest, tour = list(range(1, n)), [0]
        while rest:
            code, r = divmod(code, len(rest))
            tour.append(rest.pop(r))
        k = (i + l) % n
        tour = tour[k:] + tour[:k]
        g = [(round(x + 0.01 * l, 6), y) for x, y in pts(n, style)]
        text.append(" ".join("%r %r" % c for c in g) + " output " + " ".join(str(k + 1) for k in tour) + " %d" % (tour[0] + 1) + (tail if l < lines_ - 1 or tail != "\n" else ""))
        data[tuple(x for c in g for x in c)] = (g, tour)
    path = ctx + "/batch.txt"
    open(path, "w").write("".join(x if x.endswith("\n") or q == lines_ - 1 else x + "\n" for q, x in enumerate(text)))
    PERM[0] = perm
    ds = READER.GoogleTSPReader(n, nb, batch_size=bs, filepath=path)
    got, order = [], []
    for b in ds:
        if len(b.nodes_coord) != bs:
            fail("a batch of %d lines instead of %d" % (len(b.nodes_coord), bs))
        for q in range(bs):
            key = tuple(float(x) for x in b.nodes_coord[q].flatten())
            if key not in data:
                fail("a line that is not in the file: %s" % (key,))
            got.append(key)
            g, tour = data[key]
            D = np.array([[dist(a, c) for c in g] for a in g])
            if b.edges_values[q].shape != (n, n) or np.abs(b.edges_values[q] - D).max() > 1e-12:
                fail("distances %s instead of %s" % (b.edges_values[q], D))
            E = np.asarray(b.edges[q])
            for a in range(n):
                if E[a][a] != 2:
                    fail("no mark of city %d itself: %s" % (a, E))
                near = sorted(D[a][c] for c in range(n) if c != a)
                for c in range(n):
                    if c == a:
                        continue
                    if nb == -1:
                        exp = 1
                    else:
                        less = sum(1 for e in range(n) if e != a and D[a][e] < D[a][c] - 1e-12)
                        ties = sum(1 for e in range(n) if e != a and D[a][e] < D[a][c] + 1e-12)
                        exp = 1 if ties <= nb else 0 if less >= nb else None
                    if exp is not None and E[a][c] != exp:
                        fail("connection %d %d is %s instead of %s with %d neighbours: %s" % (a, c, E[a][c], exp, nb, D))
                if nb != -1 and sum(1 for c in range(n) if c != a and E[a][c] == 1) != nb:
                    fail("city %d is connected to %s instead of %d others" % (a, E[a], nb))
            if list(b.tour_nodes[q]) != tour:
                fail("tour %s instead of %s" % (list(b.tour_nodes[q]), tour))
            tgt = np.zeros((n, n))
            for e in range(n):
                tgt[tour[e]][tour[(e + 1) % n]] = tgt[tour[(e + 1) % n]][tour[e]] = 1
            if not np.array_equal(b.edges_target[q], tgt):
                fail("edge targets %s instead of %s for the tour %s" % (b.edges_target[q], tgt, tour))
            if [tour.index(k) for k in range(n)] != list(b.nodes_target[q]):
                fail("node targets %s for the tour %s" % (b.nodes_target[q], tour))
            ln = sum(D[tour[e]][tour[(e + 1) % n]] for e in range(n))
            if abs(b.tour_len[q] - ln) > 1e-9:
                fail("length %r of a tour of length %r" % (b.tour_len[q], ln))
            if not np.array_equal(b.nodes[q], np.ones(n)):
                fail("node signal %s" % b.nodes[q])
    if lines_ % bs == 0 and sorted(got) != sorted(data):
        fail("%d lines delivered, %d in the file" % (len(got), len(data)))
    if len(set(got)) != len(got):
        fail("a line was delivered twice")
    if len(got) != lines_ - lines_ % bs:
        fail("%d lines delivered of %d in batches of %d" % (len(got), lines_, bs))
    count("executions"); count("transitions", len(got))
    outcome((n, bs, nb, tuple(got), tail))
    if i % 997 == 0:
        sample(S.note)


def spaces_reader():
    out = []
    for n in (3, 4, 5) + ((6,) if arg("--deep") else ()):
        for nb in [-1] + list(range(1, n)):
            for tail in ("\n", " \n"):
                for style in (0, 1):
                    for lines_ in (1, 2, 4):
                        for bs in range(1, lines_ + 1):
                            for perm in range(math.factorial(lines_)):
                                out.append((n, lines_, bs, nb, perm, tail, style))
    for n in (7, 10, 20, 35) + ((60, 100) if arg("--deep") else ()):      # larger instances and files
        for nb in (-1, 1, 2, 5, n // 2, n - 1):
            for lines_, bs in ((1, 1), (3, 2), (7, 3), (12, 4), (12, 12), (25, 10)):
                if bs <= lines_ and nb < n:
                    out += [(n, lines_, bs, nb, perm * 104729, tail, style) for perm in (0, 1, 2, 77) for tail, style in (("\n", 0), (" \n", 1))]
    for n in (4, 5) + ((6,) if arg("--deep") else ()):                   # every tour
        for t in range(math.factorial(n - 1) * n):
            out.append((n, 1, 1, -1, 0, "\n" if t % 2 else " \n", 0))
    return out


def case_tours(i, ctx):
    n = TOURS[i][0]
    tour = TOURS[i][1]
    g = pts(n, i % 3)
    note("tour %s of %s" % (tour, g))
    D = np.array([[dist(a, b) for b in g] for a in g])
    ln = sum(D[tour[e]][tour[(e + 1) % n]] for e in range(n))
    W = GU.tour_nodes_to_W(tour)
    exp = np.zeros((n, n))
    for e in range(n):
        exp[tour[e]][tour[(e + 1) % n]] = exp[tour[(e + 1) % n]][tour[e]] = 1
    if not np.array_equal(W, exp):
        fail("matrix %s of the tour %s" % (W, tour))
    for name, v in (("tour_nodes_to_tour_len", GU.tour_nodes_to_tour_len(tour, D)), ("W_to_tour_len", GU.W_to_tour_len(W, D))):
        if abs(v - ln) > 1e-9:
            fail("%s gives %r for a tour of length %r" % (name, v, ln))
    if not GU.is_valid_tour(list(tour), n):
        fail("the tour %s is not valid" % (tour,))
    # every sequence in which one city is replaced, missing or repeated is not a tour
    for k in range(n):
        for v in range(n + 1):
            if v != tour[k] and GU.is_valid_tour(list(tour[:k]) + [v] + list(tour[k + 1:]), n):
                fail("%s with %d at position %d is valid" % (tour, v, k))
    if GU.is_valid_tour(list(tour[:-1]), n) or GU.is_valid_tour(list(tour) + [tour[0]], n):
        fail("a sequence of another length is valid: %s" % (tour,))
    # batches: the tour, and the tour with another, as node orders from city 0 and as predictions of edges
    other = TOURS[(i * 7 + 1) % len(TOURS)]
    if len(other[1]) == n:
        rot = [list(t[t.index(0):] + t[:t.index(0)]) for t in (tour, other[1])]
        lens = [sum(D[t[e]][t[(e + 1) % n]] for e in range(n)) for t in rot]
        v = GU.mean_tour_len_nodes(T(np.stack((D, D))), T(np.array(rot)))
        if abs(v - sum(lens) / 2) > 1e-9:
            fail("mean_tour_len_nodes gives %r for tours of lengths %s" % (v, lens))
        y = np.stack([np.stack((1 - GU.tour_nodes_to_W(t), GU.tour_nodes_to_W(t)), axis=-1) * 9.0 for t in rot])
        v = GU.mean_tour_len_edges(T(np.stack((D, D))), T(y))
        if abs(v - sum(lens) / 2) > 1e-5:
            fail("mean_tour_len_edges gives %r for tours of lengths %s" % (v, lens))
    count("executions"); count("transitions", 6)
    outcome((n, tour))
    if i % 500 == 1:
        sample("%s: length %.6f" % (tour, ln))


READER_C = r'''
#include <stdio.h>
#include <string.h>
#include "tsp_instance_reader.h"
extern void read_tsp_csv_file(Graph *, char *);
static Graph g;
int main(int c, char **v) {
    read_tsp_csv_file(&g, v[1]);
    for (int i = 0; i < g.num_edges; i++) printf("%d %d %.9g %.9g\n", (int) g.edges[i].src, (int) g.edges[i].dest, (double) g.edges[i].weight, (double) g.edges[i].prob);
    return 0;
}
'''


def build_reader(n):
    c, exe = "%s/rd%d.c" % (DIR, n), "%s/rd%d" % (DIR, n)
    open(c, "w").write(READER_C)
    subprocess.run(["clang", "-std=gnu99", "-w", "-O1", "-DMAX_VERTEX_NUM=%d" % n, "-DHYBRID=1", "-I" + MAIN, c] + c_sources(False) + ["-o", exe, "-lm", "-lpthread"], check=True, stdout=subprocess.DEVNULL)
    return exe


if __name__ == "__main__":
    try:
        setup = lambda k: setup_main(k)  # noqa: E731
        if MODE in ("write", "pipeline", "pad"):
            MAINMOD = load_main()
        elif MODE == "trained":
            MAINMOD, REALNET = load_trained()
        else:
            modules()
            if MODE == "reader":
                READER = load(NET + "/utils/google_tsp_reader.py")
            else:
                GU = load(NET + "/utils/graph_utils.py")
        if MODE == "write":
            WRITE, total = spaces_write()
            fn, what = case_write, "file written for %s cities:nodes of the network" % arg("--sizes", "2:3,3:3,2:4,4:4,3:7,2:11,5:12,5:3,6:4")
            sizes = {x[0] for x in WRITE}
        elif MODE == "pipeline":
            PIPE = spaces_pipe()
            total, fn, what = len(PIPE), case_pipeline, "whole program around the network, %s" % arg("--sizes", "default sizes")
            sizes = {x[0] for x in PIPE}
        elif MODE == "trained":
            TRAINED = spaces_trained()
            SIZES = sorted({m for t in TRAINED for _, m in t[1]})
            total, fn, what, sizes = len(TRAINED), case_trained, "sequences of runs with the trained networks of several sizes", ()
        elif MODE == "pad":
            total = spaces_pad()
            fn, what, sizes = case_pad, "padding, every outcome of the first draws", ()
        elif MODE == "reader":
            READ = spaces_reader()
            total, fn, what, sizes = len(READ), case_reader, "batches, every order of delivery, size of batch and number of neighbours", ()
        else:
            TOURS = [(n, t) for n in (3, 4, 5, 6) + ((7,) if arg("--deep") else ()) for t in itertools.permutations(range(n))]
            total, fn, what, sizes = len(TOURS), case_tours, "every tour of 3 to %d cities" % TOURS[-1][0], ()
        for n in sizes:
            SOLVER[n] = build_reader(n)
        rc = run("network side: " + what, total, fn, setup)
    finally:
        os.chdir("/")
        shutil.rmtree(DIR, ignore_errors=True)
    sys.exit(rc)
