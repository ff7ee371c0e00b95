"""The network and its decoding (P37, P38) on a stand-in for torch.
--mode layers | model | loss | config   (P37)      --mode beam | metrics   (P38)"""
import itertools, math, os, warnings
import numpy as np
from pylib import *
import minitorch

warnings.simplefilter("ignore")
MODE = arg("--mode", "layers")
NET = REPO + "/src/HybridSolver/main/graph-convnet-tsp"
DIR = tempfile.mkdtemp(prefix="gcn", dir=WORK)
RAND = [None]
torch = minitorch.install(randint=lambda lo, hi, size, **k: minitorch.Tensor(RAND[0](lo, hi, tuple(size))))
sys.path.insert(0, NET)
Tensor, FT, LT = minitorch.Tensor, minitorch.FloatTensor, minitorch.LongTensor


from refnet import *  # noqa: E402


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and (np.abs(a - b) <= tol * (1 + np.abs(b))).all()


def pts(n, style):
    if style == 0:
        return [(0.05 + ((7 * k + 2) % (n + 3)) / (n + 4), ((5 * k * k + 1) % 17) / 17) for k in range(n)]
    if style == 1:
        return [(0.5 + 0.4 * math.cos(2 * math.pi * k / n), 0.5 + 0.4 * math.sin(2 * math.pi * k / n)) for k in range(n)]
    return [(k / (n + 1), 0.25 * (k % 3)) for k in range(n)]


def instance(n, style, knn):
    p = np.array(pts(n, style))
    D = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    E = np.zeros((n, n), dtype=np.int64)
    for i in range(n):
        for j in np.argsort(D[i], kind="stable")[1:knn + 1]:
            E[i, j] = 1
        E[i, i] = 2
    return p, D, E


def tensors(rng_like, *a):
    return [Tensor(np.asarray(x, dtype=np.float32)) for x in a]


# ---------------------------------------------------------------- P37
def make_model(w, cfg):
    minitorch.WEIGHTS[0] = Weights(w)
    GM = load(NET + "/models/gcn_model.py", name="gcn_model_under_test")
    net = GM.ResidualGatedGCNModel(cfg, FT, LT)
    net.eval() if w % 2 else net.train()
    return net


CFG = {}


def config(**kw):
    if not CFG:
        C = load(NET + "/config.py", name="config_under_test")
        CFG["S"] = C.Settings
    d = dict(num_nodes=4, node_dim=2, voc_nodes_in=2, voc_nodes_out=2, voc_edges_in=3, voc_edges_out=2, hidden_dim=4, num_layers=2, mlp_layers=2, aggregation="mean", num_neighbors=2)
    d.update(kw)
    return CFG["S"](d)


def split(i, *sizes):
    out = []
    for s in sizes:
        i, r = divmod(i, s)
        out.append(r)
    return out


GRID = dict(n=[3, 4, 5], layers=[1, 2, 3], mlp=[1, 2, 3], agg=["mean", "sum"], hidden=[2, 4])


def case_model(i, ctx):
    """predictions and loss against the equations; cities relabelled by every permutation; instances of a batch reordered"""
    n, li, mi, ai, hi, w, style, k, x = SPACE[i]
    cfg = config(num_nodes=n, num_layers=li, mlp_layers=mi, aggregation=ai, hidden_dim=hi)
    net = make_model(w, cfg)
    note("%d cities, %d layers, %d in the classifier, %s, dimension %d, weights %d, style %d, %d neighbours" % (n, li, mi, ai, hi, w, style, k))
    p, D, E = instance(n, style, k)
    p2, D2, E2 = instance(n, (style + 1) % 3, max(1, k - 1))
    C, V, X = np.stack((p, p2)).astype(np.float32), np.stack((D, D2)).astype(np.float32), np.stack((E, E2))
    tour = [np.eye(n, k=1) + np.eye(n, k=-1) + np.eye(n, k=n - 1) + np.eye(n, k=1 - n), np.zeros((n, n))]
    for q in range(n):
        a, b = (q * 2) % n if n % 2 else q, (q * 2 + 2) % n if n % 2 else (q + 1) % n
        tour[1][a, b] = tour[1][b, a] = 1
    Y = (np.stack(tour) > 0).astype(np.int64)
    cw = [0.6, 1.7]

    def run(c, v, e, y):
        with np.errstate(all="ignore"):
            r = net.forward(Tensor(e.copy()), Tensor(v.copy()), Tensor(np.ones(c.shape[:2], dtype=np.int64)), Tensor(c.copy()), Tensor(y.copy()), list(cw))
        if not isinstance(r, tuple) or len(r) != 2:
            fail("the network returns %r" % (r,))
        count("executions")
        return np.asarray(minitorch.arr(r[0]), dtype=np.float64), float(r[1])
    out, loss = run(C, V, X, Y)
    ref = ref_model(net, cfg, X, V, C)
    if not close(out, ref):
        fail("the predictions are %s instead of %s" % (out.tolist(), ref.tolist()))
    rl = ref_loss(ref, Y, cw)
    if abs(loss - rl) > 1e-5 * (1 + abs(rl)):
        fail("the loss is %r instead of %r" % (loss, rl))
    perms = list(itertools.permutations(range(n))) if n <= 4 or x else [tuple((s * q + t) % n for q in range(n)) for s in (1, 2, 3) for t in range(n) if math.gcd(s, n) == 1]
    for pm in perms:
        pm = list(pm)
        o2, l2 = run(C[:, pm], V[:, pm][:, :, pm], X[:, pm][:, :, pm], Y[:, pm][:, :, pm])
        if not close(o2, out[:, pm][:, :, pm], 1e-5):
            fail("with the cities relabelled by %s the predictions change: %s instead of %s" % (pm, o2.tolist(), out[:, pm][:, :, pm].tolist()))
        if abs(l2 - loss) > 1e-5 * (1 + abs(loss)):
            fail("with the cities relabelled by %s the loss is %r instead of %r" % (pm, l2, loss))
        count("transitions")
    o2, l2 = run(C[::-1], V[::-1], X[::-1], Y[::-1])
    if not close(o2, out[::-1], 1e-5) or abs(l2 - loss) > 1e-5 * (1 + abs(loss)):
        fail("the order of the instances of a batch changes the predictions")
    o3, _ = run(C[:1], V[:1], X[:1], Y[:1])
    if not close(o3, ref_model(net, cfg, X[:1], V[:1], C[:1])):
        fail("the predictions of a batch of one are %s" % o3.tolist())
    outcome(np.round(out, 6).tolist())
    if i % 97 == 5:
        sample("%s: loss %.6f" % (S_note(), loss))


def S_note():
    return "%s" % (SPACE[0],)


def case_layers(i, ctx):
    """one layer on arbitrary (not symmetric) features"""
    n, b, h, ai, w, v = SPACE[i]
    G = ctx["G"]
    minitorch.WEIGHTS[0] = Weights(w)
    L = G.ResidualGatedGCNLayer(h, ai)
    note("layer of dimension %d, %s, %d cities, batch of %d, weights %d, features %d" % (h, ai, n, b, w, v))
    x = np.cos(np.arange(b * n * h) * (1.1 + 0.7 * v) + v).reshape(b, n, h)
    e = np.sin(np.arange(b * n * n * h) * (0.9 + 0.3 * v) + 2 * v).reshape(b, n, n, h)
    x0, e0 = x.copy(), e.copy()
    xo, eo = L(Tensor(x), Tensor(e))
    rx, re_ = ref_layer(L, x0, e0, ai)
    if not close(xo.a, rx):
        fail("node features %s instead of %s" % (xo.a.tolist(), rx.tolist()))
    if not close(eo.a, re_):
        fail("edge features %s instead of %s" % (eo.a.tolist(), re_.tolist()))
    if not np.array_equal(x, x0) or not np.array_equal(e, e0):
        fail("the layer changed its input")
    # its parts
    g = sigmoid(e0)
    N = L.node_feat(Tensor(x), Tensor(g))
    s = np.einsum("bijh,bjh->bih", g, lin(L.node_feat.V, x0))
    r = lin(L.node_feat.U, x0) + (s / g.sum(axis=2) if ai == "mean" else s)
    if not close(N.a, r):
        fail("aggregated node features %s instead of %s" % (N.a.tolist(), r.tolist()))
    F_ = L.edge_feat(Tensor(x), Tensor(e))
    r = lin(L.edge_feat.U, e0) + lin(L.edge_feat.V, x0)[:, :, None] + lin(L.edge_feat.V, x0)[:, None]
    if not close(F_.a, r):
        fail("convolved edge features %s instead of %s" % (F_.a.tolist(), r.tolist()))
    if not close(L.bn_node(Tensor(x)).a, bnorm(L.bn_node, x0, (0, 1))) or not close(L.bn_edge(Tensor(e)).a, bnorm(L.bn_edge, e0, (0, 1, 2))):
        fail("batch normalisation is not over the instances and cities of the batch")
    for k in (1, 2, 3):
        M = G.MLP(h, 2, k)
        if not close(M(Tensor(e)).a, ref_mlp(M, e0)) or len(M.U) != k - 1:
            fail("classifier of %d layers" % k)
    count("executions", 9); count("transitions", n * n)
    outcome(np.round(rx, 6).tolist())
    if i % 97 == 5:
        sample("layer of dimension %d, %s, %d cities -> %s" % (h, ai, n, np.round(rx[0, 0], 5).tolist()))


def case_loss(i, ctx):
    """all targets of 3 cities, all class weights of an alphabet"""
    M = ctx["M"]
    t, w, v = split(i, 512, 3, 4)
    y = (np.cos(np.arange(2 * 9 * 2) * (1.3 + v)) * (3 + 4 * v)).reshape(2, 3, 3, 2).astype(np.float32)
    T_ = np.array([[t >> b & 1 for b in range(9)], [511 - t >> b & 1 for b in range(9)]]).reshape(2, 3, 3)
    cw = [[1.0, 1.0], [0.6, 1.7], [0.55, 4.0]][w]
    note("targets %d, class weights %s, predictions %d" % (t, cw, v))
    l = M.loss_edges(Tensor(y), Tensor(T_), FT(cw))
    r = ref_loss(y.astype(np.float64), T_, cw)
    if abs(float(l) - r) > 1e-5 * (1 + abs(r)):
        fail("the loss of the edges is %r instead of %r" % (float(l), r))
    yn, tn = y.reshape(2, 3, 3, 2)[:, :, 0], T_[:, :, 0]
    re_ = r
    l = M.loss_nodes(Tensor(yn), Tensor(tn), FT(cw))
    r = ref_loss(yn.astype(np.float64), tn, cw)
    if abs(float(l) - r) > 1e-5 * (1 + abs(r)):
        fail("the loss of the nodes is %r instead of %r" % (float(l), r))
    count("executions", 2); count("transitions", 9)
    outcome((round(r, 6), round(re_, 6)))
    if i % 997 == 5:
        sample("targets %d, class weights %s: loss %.6f" % (t, cw, r))


def case_config(i, ctx):
    """settings: those of a file replace the default ones, the others stay"""
    C, base = ctx["C"], ctx["base"]
    keys = sorted(base)
    os.chdir(ctx["dir"])
    new, extra = {}, i % 3
    bits = i // 3
    for b, k in enumerate(KEYS):
        if bits >> b & 1:
            new[k] = {"num_nodes": 20, "aggregation": "sum", "hidden_dim": 300, "expt_name": "tsp20", "num_layers": 30, "learning_rate": 0.25, "beam_size": 0, "batch_size": None}.get(k, 7)
    if extra:
        new["something_else"] = [1, 2] if extra == 1 else 0
    note("settings %s" % new)
    json.dump(new, open("config.json", "w"))
    c = C.get_config("config.json")
    want = dict(base, **new)
    if dict(c) != want:
        fail("the settings are %s instead of %s" % (dict(c), want))
    for k in want:
        if getattr(c, k) != want[k] or c[k] != want[k]:
            fail("the setting %s is %r" % (k, getattr(c, k)))
    c.gpu_id = "3"
    c["val_every"] = 99
    if c["gpu_id"] != "3" or c.val_every != 99:
        fail("a setting that is assigned has not the value")
    if dict(C.get_default_config()) != base:
        fail("the default settings have changed")
    del c.gpu_id
    if "gpu_id" in c:
        fail("a setting that is deleted is still there")
    count("executions"); count("transitions", len(want))
    outcome(sorted((k, str(v)) for k, v in want.items()))
    if i % 97 == 5:
        sample("settings %s" % new)


KEYS = ["num_nodes", "aggregation", "hidden_dim", "expt_name", "num_layers", "learning_rate", "beam_size", "batch_size"]


# ---------------------------------------------------------------- P38
def np_beam(P, B, start, logits):
    """the best B open paths, step by step; None when two candidates are too close to tell at the edge of the beam"""
    n = len(P)
    beam = [(0.0, [start])]
    for _ in range(n - 1):
        cand = [(s + math.log(P[h[-1]][j]), h + [j]) for s, h in beam for j in range(n) if j not in h]
        cand.sort(key=lambda c: -c[0])
        if len(cand) > B and cand[B - 1][0] - cand[B][0] < 1e-4:
            return None
        beam = cand[:B]
    return beam


def tour_len(t, D):
    return sum(D[t[k]][t[(k + 1) % len(t)]] for k in range(len(t)))


ALPHA = [0.2, 0.7, 0.45, 0.9]


def prob_matrix(n, code, kind):
    p = np.full((n, n), 0.97)
    m = n * (n - 1)
    for q, (a, b) in enumerate((a, b) for a in range(n) for b in range(n) if a != b):
        if kind == "full":
            code, r = divmod(code, KA)
            p[a, b] = ALPHA[r]
        else:
            v = (code * (3 * a + 7 * b + 1) + 11 * a * b + code * code * (b + 1)) % 97
            p[a, b] = (v + 1.5) / 99.0
    return p


def case_beam(i, ctx):
    M, BS = ctx["M"], ctx["B"]
    (n, kind, total), base = next((s, b) for s, b in BEAMS if b <= i < b + GROUPS(s))
    batch = BATCH
    codes = [((i - base) * batch + q) % total for q in range(batch)]
    P = np.stack([prob_matrix(n, c, kind) for c in codes])
    D = np.stack([instance(n, c % 3, 1)[1] * (1 + 0.1 * ((c // 3) % 5)) for c in codes]).astype(np.float32)
    with np.errstate(divide="ignore"):
        Y = np.stack((np.log(1 - P), np.log(P)), axis=-1).astype(np.float32)
    for probs in ("raw", "logits"):
        for B in sorted({1, 2, 3, n, math.factorial(n - 1), math.factorial(n - 1) + 2}):
            if B > 30:
                continue
            starts = [None] if B > 3 else [None, 0, n - 1]
            for st in starts:
                note("%d cities, predictions %s, %s, beam of %d, %s" % (n, codes, probs, B, "from city 0" if st is None else "random starts %d" % st))
                RAND[0] = lambda lo, hi, size: (np.arange(int(np.prod(size))).reshape(size) * (st + 1) + st) % hi
                first = [0] * batch if st is None else [int(x) for x in RAND[0](0, n, (batch, B))[:, 0]]
                args = dict(probs_type=probs, random_start=st is not None)
                t = M.beamsearch_tour_nodes(Tensor(Y.copy()), B, batch, n, FT, LT, **args)
                s = M.beamsearch_tour_nodes_shortest(Tensor(Y.copy()), Tensor(D.copy()), B, batch, n, FT, LT, **args)
                count("executions", 2); count("transitions", 2 * batch * n)
                for q in range(batch):
                    tt, ss = [int(x) for x in t.a[q]], [int(x) for x in s.a[q]]
                    p = P[q].tolist()
                    for what, z in (("", tt), ("shortest ", ss)):
                        if sorted(z) != list(range(n)):
                            fail("the %stour %s of prediction %d does not visit every city once" % (what, z, codes[q]))
                        if z[0] != first[q]:
                            fail("the %stour %s of prediction %d does not start from city %d" % (what, z, codes[q], first[q]))
                    sc = sum(math.log(p[tt[k]][tt[k + 1]]) for k in range(n - 1))
                    beam = np_beam(p, B, first[q], probs)
                    if tour_len(ss, D[q]) > tour_len(tt, D[q]) + 1e-5:
                        fail("the shortest tour %s (%g) is longer than the most probable one %s (%g)" % (ss, tour_len(ss, D[q]), tt, tour_len(tt, D[q])))
                    if beam is None:
                        count("ties_not_judged")
                        continue
                    if sc < beam[0][0] - 1e-4:
                        fail("the tour %s of prediction %d has log-probability %g, in the beam of %d there is %s with %g" % (tt, codes[q], sc, B, beam[0][1], beam[0][0]))
                    best = min(tour_len(h, D[q]) for _, h in beam)
                    if not any(h == ss for _, h in beam):
                        fail("the shortest tour %s of prediction %d is not among the %d most probable: %s" % (ss, codes[q], B, beam))
                    if tour_len(ss, D[q]) > best + 1e-5:
                        fail("the shortest tour %s of prediction %d has length %g, in the beam of %d there is one of %g" % (ss, codes[q], tour_len(ss, D[q]), B, best))
                    count("beams_compared")
                    outcome((n, tuple(tt), tuple(ss)))
    if i % 37 == 5:
        sample("%d cities, predictions %s -> %s" % (n, codes, t.a.tolist()))


def case_metrics(i, ctx):
    """edge errors for every prediction on 3 cities (and a few on 4), several targets and adjacency masks"""
    M = ctx["M"]
    n = 3 if i < 512 else 4
    code = i if n == 3 else (i - 512) * 131 % 65536
    pred = np.array([code >> b & 1 for b in range(n * n)]).reshape(n, n)
    note("%d cities, predictions %s" % (n, pred.tolist()))
    tours = [[0, 1, 2]] if n == 3 else [[0, 1, 2, 3], [0, 2, 1, 3]]
    for t in tours:
        W = np.zeros((n, n), dtype=np.int64)
        for k in range(n):
            W[t[k], t[(k + 1) % n]] = W[t[(k + 1) % n], t[k]] = 1
        for mask in (np.ones((n, n), dtype=np.int64), np.triu(np.ones((n, n), dtype=np.int64)), 1 - np.eye(n, dtype=np.int64)):
            batch = np.stack((pred, W, 1 - pred))
            Y = np.stack((W, W, W))
            y = np.stack((-(batch * 2.0 - 1), batch * 3.0 - 1.2), axis=-1).astype(np.float32)
            r = M.edge_error(Tensor(y), Tensor(Y), Tensor(np.stack((mask,) * 3)))
            count("executions"); count("transitions", n * n)
            ok = batch == Y
            for name, got, idx, mk in (("error of the edges", r[0], None, np.stack((mask,) * 3)), ("error of the edges of the tour", r[1], r[3], Y), ("error of the edges of the tour or predicted", r[2], r[4], ((Y + batch) > 0).astype(int))):
                acc = (ok * mk).sum(axis=(1, 2)) / mk.sum(axis=(1, 2))
                want = 100 * (1 - acc.mean())
                if abs(float(got) - want) > 1e-3:
                    fail("%s: %r instead of %r, target %s" % (name, float(got), want, W.tolist()))
                if idx is not None and [bool(x) for x in minitorch.arr(idx)] != [bool(a < 1) for a in acc]:
                    fail("%s: imperfect instances %s, accuracies %s" % (name, minitorch.arr(idx).tolist(), acc.tolist()))
            outcome((round(float(r[0]), 4), round(float(r[1]), 4), round(float(r[2]), 4)))
    if i % 97 == 5:
        sample("predictions %s: errors %.3f %.3f %.3f" % (pred.tolist(), float(r[0]), float(r[1]), float(r[2])))


class Group:
    def __init__(self):
        self.param_groups = [{"lr": 0.5, "x": 1}, {"lr": 0.25}]


deep = argi("--deep")
try:
    if MODE == "model":
        SPACE = [(n, li, mi, ai, hi, w, st, k, 0 if n > 4 else 1) for n in ([3, 4, 5, 6] if deep else [3, 4, 5]) for li in (1, 2, 3) for mi in (1, 2, 3) for ai in ("mean", "sum") for hi in (2, 4) for w in range(4 if deep else 2) for st in (0, 1, 2) for k in (1, 2, n - 1) if n <= 4 or (mi == 2 and li < 3)]
        SPACE += [(n, li, mi, ai, hi, w, st, k, 0) for n, k in ((7, 3), (10, 5), (10, 9), (20, 20 - 1), (20, 5)) + (((50, 20),) if deep else ()) for li, mi, hi in ((2, 3, 6), (5, 2, 8), (12, 3, 4)) for ai in ("mean", "sum") for w in (0, 1) for st in (0, 2)]
        sys.exit(run("the network on small instances, all relabellings", len(SPACE), case_model, lambda k: {}))
    if MODE == "layers":
        SPACE = [(n, b, h, ai, w, v) for n in (1, 2, 3, 4, 5) for b in (1, 2, 3) for h in (1, 2, 3, 4) for ai in ("mean", "sum") for w in range(6 if deep else 3) for v in range(6 if deep else 3) if n * b > 1]
        SPACE += [(n, b, h, ai, w, v) for n in (8, 13, 20) for b in (1, 4) for h in (5, 10) for ai in ("mean", "sum") for w in range(2) for v in range(2)]
        sys.exit(run("layers of the network against their equations", len(SPACE), case_layers, lambda k: {"G": load(NET + "/models/gcn_layers.py", name="layers_under_test")}))
    if MODE == "loss":
        sys.exit(run("losses for all targets of three cities", 512 * 12, case_loss, lambda k: {"M": load(NET + "/utils/model_utils.py", name="mu_under_test")}))
    if MODE == "config":
        def setup(k):
            d = "%s/c%d" % (DIR, k)
            os.makedirs(d + "/configs")
            shutil.copy(NET + "/configs/default.json", d + "/configs/default.json")
            os.chdir(d)
            return {"C": load(NET + "/config.py", name="config_under_test"), "base": json.load(open(NET + "/configs/default.json")), "dir": d}
        sys.exit(run("settings files with every subset of eight settings", 3 << len(KEYS), case_config, setup))
    if MODE == "beam":
        KA = argi("--alpha", 3)
        BATCH = argi("--batch", 6)
        GROUPS = lambda s: (s[2] + BATCH - 1) // BATCH
        spec = [(3, "full", KA ** 6), (4, "wide", argi("--wide", 600)), (5, "wide", argi("--wide", 600) // 2)] + ([(4, "full", 2 ** 12)] if KA == 2 else []) + ([(6, "wide", 400)] if deep else [])
        BEAMS, b = [], 0
        for s in spec:
            BEAMS.append((s, b)); b += GROUPS(s)
        sys.exit(run("beam search on all predictions of three cities over an alphabet and parametric ones", b, case_beam, lambda k: {"M": load(NET + "/utils/model_utils.py", name="mu_under_test"), "B": None}))
    if MODE == "metrics":
        sys.exit(run("edge errors for all predictions on three cities", 512 + (512 if deep else 128), case_metrics, lambda k: {"M": load(NET + "/utils/model_utils.py", name="mu_under_test")}))
    print("unknown mode"); sys.exit(2)
finally:
    shutil.rmtree(DIR, ignore_errors=True)
