"""The analysis of reports (P24) and its aggregation (P34), on reports of real runs of the solver.
--mode read | aggregate"""
import itertools, types
from pylib import *

CAP, HY = argi("--cap", 8), argi("--hybrid", 0)
DIR = tempfile.mkdtemp(prefix="an", dir=WORK)


class Null:
    def __getattr__(self, k):
        return lambda *a, **kw: Null()


def load_analyzer():
    plt = types.ModuleType("matplotlib.pyplot")
    plt.__getattr__ = lambda k: (lambda *a, **kw: None)
    mpl = types.ModuleType("matplotlib"); mpl.pyplot = plt
    pd = types.ModuleType("pandas"); pd.DataFrame = Frame
    import warnings
    warnings.simplefilter("ignore")
    return load(REPO + "/src/HybridSolver/results/AdjacencyMatrix/analyzer.py", {"matplotlib": mpl, "matplotlib.pyplot": plt, "pandas": pd})


class Frame:
    """as much of pandas.DataFrame as the analysis needs: rows appended by label, renamed, printed or written"""
    made = []

    def __init__(self, data=None, columns=None, **kw):
        self.columns = list(columns) if columns is not None else list(data or {})
        self.labels, self.rows = [], []
        if isinstance(data, dict) and data:
            cols = [list(v) for v in data.values()]
            for i in range(len(cols[0])):
                self.labels.append(i); self.rows.append([c[i] for c in cols])
        Frame.made.append(self)

    @property
    def index(self):
        return list(self.labels)

    @property
    def loc(self):
        f = self

        class Loc:
            def __setitem__(self, k, v):
                if k in f.labels:
                    f.rows[f.labels.index(k)] = list(v)
                else:
                    f.labels.append(k); f.rows.append(list(v))
        return Loc()

    def rename(self, index=None, **kw):
        n = Frame(columns=self.columns)
        n.labels = [index.get(x, x) for x in self.labels]; n.rows = [list(r) for r in self.rows]
        return n

    def to_string(self, **kw):
        return "\n".join("%s  %s" % (l, "  ".join(str(x) for x in r)) for l, r in zip(self.labels, self.rows))

    def to_csv(self, path, index=True, **kw):
        with open(path, "w") as f:
            f.write(",".join(map(str, self.columns)) + "\n")
            for l, r in zip(self.labels, self.rows):
                f.write(",".join(([str(l)] if index else []) + [repr(float(x)) for x in r]) + "\n")


def prepare():
    """the pool of runs: text of the report and what the solver computed"""
    global RUNS
    exe = build_emit(DIR + "/emit", CAP, HY)
    RUNS = []
    for i, spec in enumerate(arg("--pool").split("@")):
        fam, prob, hi, step, jumps, clock = spec.split("|")
        d = "%s/e%d" % (DIR, i)
        for t in emit(exe, d, fam, 0, int(hi), prob, jumps, int(step), clock_step=clock):
            t["text"] = open("%s/r%d.txt" % (d, t["k"])).read()
            if t["tour"]:
                RUNS.append(t)
        shutil.rmtree(d)
    RUNS.sort(key=lambda t: t["interrupted"])
    if not RUNS:
        raise SystemExit("no runs")


TAKEN = [0.25, 3.0, 1234.5678901234, 12.1]


def folder(path, runs):
    """a folder of results as the driver leaves it; returns what the analysis must find"""
    os.makedirs(path)
    open(path + "/mean_results.txt", "w").write("not a report")
    open(path + "/notes.md", "w").write("not a report either")
    exp = {}
    for i, (ident, r) in enumerate(runs):
        taken = r["elapsed"] + TAKEN[(i + ident) % 4]
        cities = "".join("\t%d : %s %s\n" % (k, 0.25 * k, 1.0 / (k + 1)) for k in range(r["n"]))
        with open("%s/tsp_result_%d.txt" % (path, ident), "w") as f:
            f.write(r["text"] + "\nNodes: \n" + cities + "\nTime taken: " + str(taken) + "s\n")
        exp[ident] = dict(r, taken=taken)
    return exp


def near(a, b, tol=2e-6):
    return abs(a - b) <= tol * (1 + abs(b))


def lines_of(text):
    out = []
    for line in text.splitlines():
        if line.startswith("Updated best value:"):
            a, b = line[len("Updated best value:"):].split(", at time:")
            out.append((float(a), float(b)))
    return out


def compare(st, exp, what):
    done = {k: v for k, v in exp.items() if not v["interrupted"]}
    for key, field in (("total_time", "taken"), ("time_bb", "elapsed"), ("time_to_best", "reach"), ("generate_bbnodes", "generated"), ("explored_bbnodes", "explored"),
                       ("bbnodes_before_best", "id"), ("total_tree_level", "levels"), ("best_level", "level"), ("prob_best", "prob"), ("best_value", "cost")):
        got = st[key]
        if sorted(got) != sorted(done):
            fail(what, "the analysis has %s of the runs %s, those not interrupted are %s" % (key, sorted(got), sorted(done)))
        for k in done:
            if not near(got[k], done[k][field], 1e-5 if field in ("reach", "elapsed") else 2e-6):
                fail(what, "%s of run %d is %r in the analysis, the solver computed %r: %s" % (key, k, got[k], done[k][field], done[k]["text"]))
    if list(st["not_resolved"]) != sorted(k for k in exp if exp[k]["interrupted"]):
        fail(what, "not resolved: %s instead of %s" % (st["not_resolved"], sorted(k for k in exp if exp[k]["interrupted"])))
    if sorted(st["partial_solutions"]) != sorted(exp):
        fail(what, "improvements of runs", sorted(st["partial_solutions"]), "instead of", sorted(exp))
    for k, v in exp.items():
        flag, sols = st["partial_solutions"][k]
        if bool(flag) == bool(v["interrupted"]):
            fail(what, "run %d counts as solved: %s, interrupted: %s" % (k, flag, v["interrupted"]))
        over = v["taken"] - v["elapsed"]
        want = [(a, b + over) for a, b in lines_of(v["text"])] or [(v["cost"], over + v["reach"])]
        if len(want) != len(sols) or any(not near(a[0], b[0]) or not near(a[1], b[1], 1e-5) for a, b in zip(sols, want)):
            fail(what, "improvements of run %d: %s instead of %s: %s" % (k, sols, want, v["text"]))
    n, m = len(exp), len(done)

    def pct(x):
        return float(str(x).rstrip("%"))
    if abs(pct(st["resolved"]) - 100.0 * m / n) > 0.0051:
        fail(what, "%s resolved, %d of %d are" % (st["resolved"], m, n))
    for key, kind in (("num_closed_nn", "nn"), ("num_closed_nnHybrid", "nnh"), ("num_closed_1Tree", "1tree"), ("num_closed_subgradient", "subgradient")):
        w = 100.0 * sum(v["kind"] == kind for v in done.values()) / m if m else 0
        if abs(pct(st[key]) - w) > 0.0051:
            fail(what, "%s is %s, %.2f%% of the solved runs are (%s)" % (key, st[key], w, [v["kind"] for v in done.values()]))


def case_read(i, A):
    d = "%s/c%d" % (DIR, os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    n = len(RUNS)
    if i < n:                      # every run alone
        runs = [((i * 37) % 400 + 1, RUNS[i])]
    elif i < 2 * n:                # every run with two others
        j = i - n
        runs = [(7, RUNS[j]), (12, RUNS[(j + n // 2) % n]), (103, RUNS[(j * 5 + 1) % n])]
    elif i >= 2 * n + 256:         # folders of 9 to 150 runs, in steps of one to seven
        q = i - 2 * n - 256
        runs = [(k * (1 + q % 7) + 1, RUNS[(q * 13 + k * 5) % n]) for k in range((9, 10, 11, 12, 20, 99, 101, 150)[q % 8])]
    else:                          # every pattern of interrupted and completed runs in a folder of eight
        pat = i - 2 * n
        good = [r for r in RUNS if not r["interrupted"]]; bad = [r for r in RUNS if r["interrupted"]]
        if not bad:
            return
        ids = (1, 2, 3, 4, 5, 6, 7, 8) if pat % 3 else (1, 2, 9, 10, 11, 20, 99, 100)
        runs = [(ids[k], (bad if pat >> k & 1 else good)[(pat * 3 + k * 7) % len(bad if pat >> k & 1 else good)]) for k in range(8)]
    exp = folder(d, runs)
    note("folder with runs " + ", ".join("%d%s" % (k, " (interrupted)" if r["interrupted"] else "") for k, r in runs) + ":\n" + runs[0][1]["text"])
    st = A.read_values(d)
    count("executions"); count("transitions", len(runs))
    compare(st, exp, "folder of %d runs:" % len(runs))
    outcome((st["resolved"], [v["k"] for v in exp.values()]))
    if i % 501 == 7:
        sample("runs %s: %s resolved, improvements %s" % (sorted(exp), st["resolved"], list(st["partial_solutions"].values())[0][1][:3]))


# ---------------------------------------------------------------- aggregation
def case_aggregate(i, A):
    import numpy as np
    d = "%s/g%d" % (DIR, os.getpid())
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    os.chdir(d)
    n = len(RUNS); good = [r for r in RUNS if not r["interrupted"]]; bad = [r for r in RUNS if r["interrupted"]] or good
    pat, rot = i % 256, i // 256
    hy, cl = [], []
    ids = (1, 2, 3, 4, 5, 6) if pat % 3 else (1, 2, 9, 10, 11, 100)
    for k in range(6):
        hy.append((ids[k], (bad if k < 4 and pat >> k & 1 else good)[(rot * 11 + k * 5 + pat) % len(bad if k < 4 and pat >> k & 1 else good)]))
        cl.append((ids[k], (bad if k < 4 and pat >> (k + 4) & 1 else good)[(rot * 17 + k * 3 + 2 + pat) % len(bad if k < 4 and pat >> (k + 4) & 1 else good)]))
    N = 20
    eh = folder(d + "/tsp_%d_nodes_hybrid" % N, hy); ec = folder(d + "/tsp_%d_nodes_classic" % N, cl)
    note("analysis of hybrid runs %s and classic runs %s" % (hy, cl))
    Frame.made = []
    A.analyze(N, True)
    count("executions"); count("transitions", 12)
    rows = {}
    for line in open("mean_results/%d_nodes/mean_results.txt" % N):
        w = line.rsplit("  ", 0)[0].split("  ")
        if len(w) >= 6 or w[0].strip() in ("Log values", "Original values"):
            rows[w[0].strip()] = [x.strip() for x in w[1:]]
    dh = {k: v for k, v in eh.items() if not v["interrupted"]}; dc = {k: v for k, v in ec.items() if not v["interrupted"]}
    same = sorted(set(dh) & set(dc))
    for label, kind in (("Closed NN", "nn"), ("Closed NN Hybrid", "nnh"), ("Closed 1Tree", "1tree"), ("Closed Subgradient", "subgradient"), ("Resolved Instances", None)):
        for c, (e, dn) in ((0, (eh, dh)), (2, (ec, dc))):
            w = 100.0 * len(dn) / len(e) if kind is None else 100.0 * sum(v["kind"] == kind for v in dn.values()) / len(dn)
            if abs(float(rows[label][c].rstrip("%")) - w) > 0.0051:
                fail("%s is %s instead of %.2f%% in column %d" % (label, rows[label], w, c))
    for key, field in (("total_time", "taken"), ("time_bb", "elapsed"), ("time_to_best", "reach"), ("generate_bbnodes", "generated"), ("explored_bbnodes", "explored"),
                       ("bbnodes_before_best", "id"), ("total_tree_level", "levels"), ("best_level", "level"), ("prob_best", "prob"), ("best_value", "cost")):
        for c, e in ((0, eh), (2, ec)):
            x = [e[k][field] for k in same]
            m = sum(x) / len(x); sd = (sum((v - m) ** 2 for v in x) / len(x)) ** 0.5
            got = [float(v) for v in rows[key][c:c + 2]]
            if not near(got[0], m, 1e-5) or not near(got[1], sd * 1.96 / len(x) ** 0.5, 1e-4):
                fail("%s: mean %s and interval %s instead of %s and %s over the runs %s solved in both modes (column %d)" % (key, got[0], got[1], m, sd * 1.96 / len(x) ** 0.5, same, c))
        a, b = [eh[k][field] for k in same], [ec[k][field] for k in same]
        from scipy.stats import wilcoxon
        exact = [(float("%.6f" % x), float("%.6f" % y)) for x, y in zip(a, b)]
        if field not in ("taken", "elapsed", "reach"):
            w = float(wilcoxon([x for x, _ in exact], [y for _, y in exact])[1])
            g = float(rows[key][4])
            if not (w != w and g != g) and not near(g, w, 1e-6):
                fail("%s: p-value %s instead of %s over the runs %s" % (key, g, w, same))
    for label, lg in (("Log values", True), ("Original values", False)):
        for c, dn in ((0, dh), (3, dc)):
            x = [v["generated"] for v in dn.values()]; m = sum(x) / len(x); sd = (sum((v - m) ** 2 for v in x) / len(x)) ** 0.5
            w = [m, m + sd, m - sd]
            if lg:
                w = [np.log10(m), np.log10(m + sd), np.log10(1 if m - sd < 0 else m - sd) if m - sd != 0 else None]
            for q in range(3):
                if w[q] is not None and np.isfinite(w[q]) and abs(m - sd) > 1e-6 and not near(float(rows[label][c + q]), w[q], 1e-6):
                    fail("%s of generated nodes: %s instead of %s" % (label, rows[label][c:c + 3], w))
    text = open("mean_results/%d_nodes/mean_results.txt" % N).read()
    for name, e in (("hybrid", eh), ("classic", ec)):
        nr = sorted(k for k in e if e[k]["interrupted"])
        m = re.search(r"Not resolved (\d+) instances for %s: (\[.*?\])" % name, text)
        if not m or int(m.group(1)) != len(nr) or json.loads(m.group(2)) != nr:
            fail("not resolved for %s: %s instead of %s" % (name, m and m.group(0), nr))
    # the profiles
    def curve(e):
        return {k: ([(a, b + v["taken"] - v["elapsed"]) for a, b in lines_of(v["text"])] or [(v["cost"], v["taken"] - v["elapsed"] + v["reach"])], not v["interrupted"]) for k, v in e.items()}
    ch, cc = curve(eh), curve(ec)
    def table(name):
        L = open("mean_results/%d_nodes/%s" % (N, name)).read().split()
        return L[0].split(","), [[float(x) for x in l.split(",")] for l in L[1:]]
    head, got = table("performance_profile.csv")
    times = sorted({t for c in (ch, cc) for s, _ in c.values() for _, t in s})
    ub = 0.00127 * N ** 0.5
    want = []
    for t in times:
        def best(s):
            b = float("inf")
            for a, u in s:
                if u <= t + 1e-9:
                    b = a
                else:
                    break
            return b
        h = c = 0
        for k in ch:
            a, b = best(ch[k][0]), best(cc[k][0])
            if a == b or abs(a - b) < ub:
                continue
            h += a < b; c += b < a
        want.append((t, h / len(ch), c / len(ch)))
    def steps(rows_):                      # value of the profile after the last of the rows of the same time
        out = {}
        for t, a, b in rows_:
            out[round(t, 3)] = (round(a, 6), round(b, 6))
        return out
    amb = any(abs(abs(x - y) - ub) < 2e-6 for k in ch for x, _ in ch[k][0] for y, _ in cc[k][0])
    tt = sorted(times); amb = amb or any(y - x < 5e-3 and y - x > 1e-12 for x, y in zip(tt, tt[1:]))
    count("ambiguous_profiles", amb)
    if not amb and "inf" not in str(want):
        if [h.strip() for h in head] != ["Time", "Hybrid", "Classic"] or steps(got) != steps(want):
            fail("improvement profile: %s instead of %s" % (sorted(steps(got).items())[:12], sorted(steps(want).items())[:12]))
    head, got = table("cumulative_profile.csv")
    want = []
    ends = sorted({s[-1][1] for c in (ch, cc) for s, ok in c.values() if ok})
    for t in ends:
        want.append((t, sum(ok and s[-1][1] <= t + 1e-9 for s, ok in ch.values()) / len(ch), sum(ok and s[-1][1] <= t + 1e-9 for s, ok in cc.values()) / len(cc)))
    if not amb and steps(got) != steps(want):
        fail("cumulative profile: %s instead of %s" % (sorted(steps(got).items()), sorted(steps(want).items())))
    outcome((rows["best_value"], rows["generate_bbnodes"]))
    if i % 97 == 3:
        sample("%s, %s" % (rows["best_value"], rows["Resolved Instances"]))


# ---------------------------------------------------------------- the tables
def case_tables(i, A):
    d = "%s/t%d" % (DIR, os.getpid())
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    os.chdir(d)
    good = [r for r in RUNS if not r["interrupted"]]; bad = [r for r in RUNS if r["interrupted"]] or good
    want = {}
    for q, N in enumerate((20, 50, 100, 35, 75, 150)):
        hy, cl = [], []
        for k in range(5):
            hy.append((k + 1, (bad if k == q and i & 1 else good)[(i * 11 + k * 5 + q * 7) % len(bad if k == q and i & 1 else good)]))
            cl.append((k + 1, (bad if k == 5 - q and i & 2 else good)[(i * (3 if i & 4 else 11) + k * (3 if i & 4 else 5) + q * 7) % len(bad if k == 5 - q and i & 2 else good)]))
        eh = folder("tsp_%d_nodes_hybrid" % N, hy); ec = folder("tsp_%d_nodes_classic" % N, cl)
        A.analyze(N, False)
        want[N] = (eh, ec, {l.split()[0]: l.split()[1:] for l in open("mean_results/%d_nodes/mean_results.txt" % N) if len(l.split()) == 6})
    note("tables %d" % i)
    A.create_tables()
    count("executions"); count("transitions", 60)
    for name, sizes in (("exact", (20, 50, 100)), ("heur", (35, 75, 150))):
        text = open("mean_results/%s_table.tex" % name).read()
        if re.search(r"[\x00-\x08\x09](?=extbf)|_[0-9]", text):
            fail("%s table: a cell is left or garbled: %r" % (name, re.search(r".{0,80}([\x00-\x08\x09](?=extbf)|_[0-9]).{0,80}", text).group(0)))
        rows = {}
        for line in text.split("\n"):
            cells = [c.strip() for c in line.replace("\\\\", "").split("&")]
            rows[cells[0]] = cells[1:]
            for w in re.findall(r"n=(\w+)", line):
                rows.setdefault("n", []).append(w)
        if rows["n"] != [str(x) for x in sizes]:
            fail("%s table: sizes %s" % (name, rows["n"]))
        def full(label):
            r = [x for x in rows if x.replace("\\qquad", "").replace("$", "").strip() == label]
            if len(r) != 1:
                fail("%s table: no row %s" % (name, label))
            return rows[r[0]]
        pct = lambda x: float(x.replace("\\", "").rstrip("%"))
        for c, N in enumerate(sizes):
            eh, ec, agg = want[N]
            for label, kind in (("Instances solved", None), ("with NN", "nn"), ("with PNN", "nnh")):
                r = [x for x in full(label) if x]
                for col, e in ((2 * c, ec), (2 * c + 1, eh)):
                    if kind == "nnh" and e is ec:
                        continue
                    dn = [v for v in e.values() if not v["interrupted"]]
                    w = 100.0 * len(dn) / len(e) if kind is None else 100.0 * sum(v["kind"] == kind for v in dn) / len(dn)
                    if abs(pct(r[col]) - w) > 0.0051:
                        fail("%s table, %d cities, %s: %s instead of %.2f" % (name, N, label, r, w))
            for label, key in (("Total time (s)", "total_time"), ("BB time (s)", "time_bb"), ("Time to Best (s)", "time_to_best"), ("BB tree depth", "total_tree_level"), ("Depth of the best", "best_level"),
                               ("Generated BB nodes", "generate_bbnodes"), ("Explored BB nodes", "explored_bbnodes"), ("BB nodes before best", "bbnodes_before_best")):
                r = full(label)[4 * c:4 * c + 4]
                hm, hs, cm, cs, p = [float(x) for x in agg[key]]
                hm, hs, cm, cs = round(hm, 2), round(hs, 2), round(cm, 2), round(cs, 2)
                bold = lambda v: "\\underline{\\textbf{%s}}" % v if round(p, 2) < 0.05 else "\\textbf{%s}" % v
                w = [bold(cm) if cm < hm else str(cm), "\\stdf{%s}" % cs, bold(hm) if hm < cm else str(hm), "\\stdf{%s}" % hs]
                if r != w:
                    fail("%s table, %d cities, %s: %s instead of %s" % (name, N, label, r, w))
            label = [x for x in rows if "O_{T" in x][0]
            r = [x for x in rows[label] if x and x != "-"][2 * c:2 * c + 2]
            w = [str(round(float(agg["prob_best"][0]), 2)), "\\stdf{%s}" % round(float(agg["prob_best"][1]), 2)]
            if r != w:
                fail("%s table, %d cities, probability: %s instead of %s" % (name, N, r, w))
        outcome(text)
    if i % 41 == 3:
        sample(text[-900:])


def setup(k):
    return load_analyzer()


if __name__ == "__main__":
    try:
        prepare()
        m = arg("--mode", "read")
        if m == "read":
            total = 2 * len(RUNS) + 256 + 56
            rc = run("reports of %s, cap %d, %s mode: every run alone, with two others, every pattern of interruptions in a folder of eight, folders of up to 150" % (arg("--pool"), CAP, "hybrid" if HY else "classic"), total, case_read, setup)
        elif m == "tables":
            rc = run("tables of six pairs of folders with runs of %s" % arg("--pool"), argi("--variants", 64), case_tables, setup)
        else:
            rc = run("aggregation of pairs of folders with runs of %s, every pattern of interruptions" % arg("--pool"), 256 * argi("--rotations", 2), case_aggregate, setup)
    finally:
        shutil.rmtree(DIR, ignore_errors=True)
    sys.exit(rc)
