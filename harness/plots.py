"""The drawings of predictions and the neighbour ranks of a data set (P42). matplotlib is replaced by a recorder of what is
drawn where, networkx keeps its graphs and only its drawing functions record.
--mode plots | ranks"""
import itertools, math, re, types, warnings
import numpy as np
from pylib import *
import minitorch

warnings.simplefilter("ignore")
MODE = arg("--mode", "plots")
NET = REPO + "/src/HybridSolver/main/graph-convnet-tsp"
DIR = tempfile.mkdtemp(prefix="plt", dir=WORK)
T = minitorch.Tensor
FIGS, CURRENT, PERM = [], [None], [0]


class Unjudged(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise minitorch.Unsupported("%s.%s" % (self.__name__, name))


class Axes:
    def __init__(self, pos):
        self.pos, self.title, self.nodes, self.edges = pos, "", [], []

    def set_title(self, t, *a, **k):
        self.title = t

    def axis(self, *a, **k):
        pass

    set_axis_off = axis

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise minitorch.Unsupported("Axes.%s" % name)


class Figure:
    def __init__(self):
        self.axes_ = []

    def add_subplot(self, *a, **k):
        if len(a) == 1:
            a = tuple(int(c) for c in str(a[0]))
        x = Axes(a)
        self.axes_.append(x)
        CURRENT[0] = x
        return x

    def suptitle(self, *a, **k):
        pass

    tight_layout = suptitle

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise minitorch.Unsupported("Figure.%s" % name)


def figure(*a, **k):
    FIGS.append(Figure())
    return FIGS[-1]


def sca(x):
    CURRENT[0] = x


def draw_nodes(G, pos, nodelist=None, node_size=300, node_color="#1f78b4", ax=None, **k):
    nodes = list(G) if nodelist is None else list(nodelist)
    c = [node_color] * len(nodes) if isinstance(node_color, str) else list(node_color)
    (ax or CURRENT[0]).nodes += [(v, tuple(float(x) for x in pos[v]), c[q]) for q, v in enumerate(nodes)]


def draw_edges(G, pos, edgelist=None, width=1.0, edge_color="k", edge_cmap=None, alpha=None, ax=None, **k):
    edges = list(G.edges()) if edgelist is None else [tuple(int(x) for x in e[:2]) for e in edgelist]
    c = [edge_color] * len(edges) if isinstance(edge_color, str) else list(edge_color)
    for q, e in enumerate(edges):
        (ax or CURRENT[0]).edges.append((e, tuple(float(x) for x in pos[e[0]]), tuple(float(x) for x in pos[e[1]]), c[q] if isinstance(c[q], str) else float(c[q])))


def shuffle(x, *a, **k):
    x, k, out = list(x), PERM[0], []
    while x:
        k, r = divmod(k, len(x))
        out.append(x.pop(r))
    return out


CHOICE = [()]


def choice(a, size=None, replace=True, p=None):
    n = a if isinstance(a, (int, np.integer)) else len(a)
    if size is None or replace or p is not None:
        raise minitorch.Unsupported("random choice of another kind")
    c = CHOICE[0][:size] if not isinstance(size, tuple) else None
    if c is None or len(c) != size or max(c) >= n:
        fail("%s instances of %d are chosen" % (size, n))
    return np.array(c) if isinstance(a, (int, np.integer)) else np.asarray(a)[list(c)]


def setup_modules():
    def mod(name, **kw):
        m = Unjudged(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    minitorch.install()
    mod("sklearn"); mod("sklearn.utils", shuffle=shuffle)
    plt = mod("matplotlib.pyplot", figure=figure, sca=sca, gca=lambda: CURRENT[0], show=lambda *a, **k: count("shown"), close=lambda *a, **k: None, tight_layout=lambda *a, **k: None, axis=lambda *a, **k: None,
              cm=types.SimpleNamespace(Reds="Reds"))
    mod("matplotlib", pyplot=plt, use=lambda *a, **k: None, cm=plt.cm)
    import networkx as nx
    nx.from_numpy_matrix = lambda A, *a, **k: nx.from_numpy_array(np.asarray(A), *a, **k)
    nx.draw_networkx_nodes, nx.draw_networkx_edges = draw_nodes, draw_edges
    for f in ("draw", "draw_networkx", "draw_networkx_labels", "draw_networkx_edge_labels"):
        def un(*a, _f=f, **k):
            raise minitorch.Unsupported("networkx.%s" % _f)
        setattr(nx, f, un)
    np.random.choice = choice
    sys.path.insert(0, NET)


def pts(n, style):
    if style == 0:
        return [(round(0.05 + ((7 * k + 2) % (n + 3)) / (n + 4) + 0.001 * k, 6), round(((5 * k * k + 1) % 17) / 17, 6)) for k in range(n)]
    if style == 1:
        return [(0.5 + 0.4 * math.cos(2 * math.pi * k / n), 0.5 + 0.4 * math.sin(2 * math.pi * k / n)) for k in range(n)]
    return [(k / (n + 1), 0.25 * (k % 3)) for k in range(n)]


def nth_tour(n, code):
    rest, t = list(range(n)), []
    while rest:
        code, r = divmod(code, len(rest))
        t.append(rest.pop(r))
    return t


def tour_edges(t):
    return {frozenset((t[q], t[(q + 1) % len(t)])) for q in range(len(t))}


def length(t, D):
    return sum(D[t[q]][t[(q + 1) % len(t)]] for q in range(len(t)))


# ---------------------------------------------------------------- drawings
def case_plots(i, ctx):
    beam, n, B, ch, style, v = SPACE[i]
    g = [[(x + 0.01 * b, y) for x, y in pts(n, (style + b) % 3)] for b in range(B)]
    D = np.array([[[math.hypot(p[0] - q[0], p[1] - q[1]) for q in s] for p in s] for s in g])
    tours = [nth_tour(n, (7 * v + 5 * b + 3) % math.factorial(n)) for b in range(B)]
    dec = [nth_tour(n, (11 * v + 13 * b + 1) % math.factorial(n)) for b in range(B)]
    W = np.zeros((B, n, n), dtype=np.int64)
    Y = np.zeros((B, n, n), dtype=np.int64)
    L = np.zeros((B, n, n, 2))
    for b in range(B):
        for e in tour_edges(tours[b]):
            a, c = tuple(e)
            Y[b, a, c] = Y[b, c, a] = 1
        for a in range(n):
            W[b, a, a] = 2
            for c in range(n):
                if a != c:
                    W[b, a, c] = int((a * 3 + c * 5 + v + b) % 3 > 0)
                    p = ((a * 7 + c * 3 + v + 5 * b) % 11 + 0.5) / 12          # never within 0.02 of one quarter... see below
                    p = p if abs(p - 0.25) > 0.02 else 0.29
                    L[b, a, c] = (math.log(1 - p) + 0.3, math.log(p) + 0.3)
                else:
                    L[b, a, c] = (5.0, -5.0)
    P = np.exp(L[..., 1]) / np.exp(L).sum(-1)
    CHOICE[0] = ch
    FIGS.clear()
    note("%s, %d cities, instances %s of %d, style %d, variant %d" % ("beam search" if beam else "predictions", n, ch, B, style, v))
    a = [T(np.array(g, dtype=np.float32)), T(W), T(D.astype(np.float32)), T(Y), T(L.astype(np.float32))]
    if beam:
        PL.plot_predictions_beamsearch(*a, T(np.array(dec)), num_plots=len(ch))
    else:
        PL.plot_predictions(*a, num_plots=len(ch))
    if len(FIGS) != len(ch):
        fail("%d figures for %d instances" % (len(FIGS), len(ch)))
    for f, b in zip(FIGS, ch):
        want = 3 if beam else 2
        if len(f.axes_) != want or sorted(x.pos[-1] for x in f.axes_) != list(range(1, want + 1)):
            fail("the figure has %d drawings at %s" % (len(f.axes_), [x.pos for x in f.axes_]))
        ax = sorted(f.axes_, key=lambda x: x.pos[-1])
        for x in ax:
            if sorted(z[0] for z in x.nodes) != list(range(n)):
                fail("the cities drawn are %s" % [z[0] for z in x.nodes])
            col = {z[0]: z[2] for z in x.nodes}
            for k, p, c in x.nodes:
                if abs(p[0] - g[b][k][0]) + abs(p[1] - g[b][k][1]) > 1e-5:
                    fail("city %d of instance %d is drawn at %s instead of %s" % (k, b, p, g[b][k]))
                if (c == col[0]) != (k == 0):
                    fail("the first city is not marked: %s" % col)
            for e, p, q, c in x.edges:
                for k, z in zip(e, (p, q)):
                    if abs(z[0] - g[b][k][0]) + abs(z[1] - g[b][k][1]) > 1e-5:
                        fail("edge %s of instance %d is drawn from %s to %s" % (e, b, p, q))
        for x, t in ((ax[0], tours[b]),) + (((ax[2], dec[b]),) if beam else ()):
            red = {frozenset(e) for e, _, _, c in x.edges if c == "r" or c == "red"}
            rest = {frozenset(e) for e, _, _, c in x.edges if not (c == "r" or c == "red")}
            con = {frozenset((p, q)) for p in range(n) for q in range(n) if W[b, p, q] == 1}
            if red != tour_edges(t):
                fail("instance %d: the edges in red are %s, the tour is %s" % (b, sorted(map(sorted, red)), t))
            if rest != con:
                fail("instance %d: the connections drawn are %s instead of %s" % (b, sorted(map(sorted, rest)), sorted(map(sorted, con))))
            num = re.findall(r"[0-9]+\.[0-9]+", x.title)
            if not num or abs(float(num[-1]) - length(t, D[b])) > 0.00051:
                fail("instance %d: title %r over a tour of length %.4f" % (b, x.title, length(t, D[b])))
        heat = {e: c for e, _, _, c in ax[1].edges}
        exp = {(p, q): P[b, p, q] for p in range(n) for q in range(n) if P[b, p, q] > 0.25}
        if set(heat) != set(exp) or any(isinstance(c, str) or abs(c - exp[e]) > 1e-5 for e, c in heat.items()):
            fail("instance %d: the probabilities drawn are %s instead of %s" % (b, heat, exp))
    count("executions"); count("transitions", len(ch))
    outcome((beam, n, ch, [[(x.title, sorted(map(str, x.edges))) for x in f.axes_] for f in FIGS]))
    if i % 997 == 3:
        sample("%s: %s" % (S.note, [x.title for f in FIGS for x in f.axes_]))


def spaces_plots():
    deep = argi("--deep")
    out = []
    for beam in (0, 1):
        for n in (3, 4, 5, 6) + ((7, 10) if deep else ()):
            for B in (1, 2, 3) + ((4,) if deep else ()):
                for k in range(1, B + 1):
                    for ch in itertools.permutations(range(B), k):
                        out += [(beam, n, B, ch, st, v) for st in range(3) for v in range(24 if deep else 8)]
        for n in (10, 20, 50):
            out += [(beam, n, 2, ch, st, v) for ch in ((0,), (1,), (1, 0)) for st in (0, 1) for v in (0, 1, 2)]
    return out


# ---------------------------------------------------------------- neighbour ranks
def case_ranks(i, ctx):
    n, lines_, bs, perm, style, v = SPACE[i]
    note("%d cities, %d lines in batches of %d, order %d, style %d, tours %d" % (n, lines_, bs, perm, style, v))
    text, lo, hi = [], [], []
    for l in range(lines_):
        g = [(round(x + 0.01 * l, 6), y) for x, y in pts(n, style)]
        # the farther from the first line, the more the tour follows the neighbours or leaves them
        t = nth_tour(n, (v * (3 * l + 1) + l) % math.factorial(n))
        D = [[math.hypot(p[0] - q[0], p[1] - q[1]) for q in g] for p in g]
        a, b = 0, 0
        for e in tour_edges(t):
            for p, q in (tuple(e), tuple(e)[::-1]):
                a = max(a, 1 + sum(1 for x in range(n) if x != p and D[p][x] < D[p][q] - 1e-7))
                b = max(b, sum(1 for x in range(n) if x != p and D[p][x] < D[p][q] + 1e-7))
        lo.append(a); hi.append(b)
        text.append(" ".join("%r %r" % c for c in g) + " output " + " ".join(str(k + 1) for k in t) + " %d \n" % (t[0] + 1))
    path = ctx + "/ranks.txt"
    open(path, "w").write("".join(text))
    PERM[0] = perm
    ds = READER.GoogleTSPReader(n, -1, batch_size=bs, filepath=path)
    k = GU.get_max_k(ds)
    order = shuffle(range(lines_))[:lines_ - lines_ % bs]
    a, b = max(lo[l] for l in order), max(hi[l] for l in order)
    if not a <= k <= b:
        fail("the largest rank of a neighbour in a tour is %d%s, get_max_k gives %r" % (a, "" if a == b else " to %d" % b, k))
    if int(k) != k:
        fail("get_max_k gives %r" % k)
    count("executions"); count("transitions", lines_); outcome((n, lo, hi, k))
    if i % 997 == 3:
        sample("%s: %d" % (S.note, k))


def spaces_ranks():
    deep = argi("--deep")
    out = []
    for n in (4, 5, 6) + ((7, 8) if deep else ()):
        for lines_ in (1, 2, 3, 4):
            for bs in range(1, lines_ + 1):
                for perm in range(math.factorial(lines_)):
                    out += [(n, lines_, bs, perm, st, v) for st in ((0, 1, 2) if deep else (0, 2)) for v in range(12 if deep else 5)]
    for n in (10, 20):
        out += [(n, l, b, p, st, v) for l, b in ((6, 2), (7, 3), (12, 1)) for p in (0, 1, 5, 101) for st in (0, 2) for v in (1, 12345, 99991)]
    return out


if __name__ == "__main__":
    try:
        setup_modules()
        GU = load(NET + "/utils/graph_utils.py", name="gu_under_test")

        def setup(k):
            d = "%s/w%d" % (DIR, k)
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            return d
        if MODE == "plots":
            PL = load(NET + "/utils/plot_utils.py", name="pu_under_test")
            SPACE = spaces_plots()
            rc = run("network side: drawings of every choice of instances", len(SPACE), case_plots, setup)
        else:
            READER = load(NET + "/utils/google_tsp_reader.py")
            SPACE = spaces_ranks()
            rc = run("network side: neighbour ranks of data sets in every order", len(SPACE), case_ranks, setup)
    finally:
        os.chdir("/")
        shutil.rmtree(DIR, ignore_errors=True)
    sys.exit(rc)
