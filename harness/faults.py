"""P44: the driver HybridSolver.py under faults. Every step that the driver takes outside of itself (cmake, make, the network,
the solver) can fail in several ways, and the driver itself can die before any of its own effects (opening, removing or
synchronising a file, making a folder, starting a process; what was not written out is lost). Histories: leftovers of an
earlier data set, then runs that fail somewhere, then a run without faults. The steps are stand-ins, except for the solver."""
import itertools, shlex, subprocess as SP
from pylib import *
import driver as D

MODE = arg("--mode", "single")
LINES = 3
D.LINES = LINES


def lines(n, style):
    """instances whose texts all have the same length"""
    out = []
    for k in range(1, LINES + 1):
        t = " ".join("%.4f %.4f" % (p[0] % 1, p[1] % 1) for p in D.points(n, k, style))
        out.append(t + (" output " + " ".join(str(c + 1) for c in range(n)) + " 1" if style != 1 else ""))
    return out


REAL = {k: getattr(SP, k) for k in ("run", "Popen")}
HUGE = 10 ** 6
PARTS = {"cmake": ["fail", "missing", "interrupt"], "make": ["fail", "gone", "missing", "interrupt", "goneinterrupt"], "net": ["fail", "empty", "half", "killed", "missing", "interrupt", "halfinterrupt"],
         "solver": ["fail", "empty", "half", "almost", "killed", "missing", "interrupt", "halfinterrupt"]}
STYLE_OLD, STYLE = 1, 0
BIN = {}


class Box:
    """the outside of one run of the driver: counts events, injects the fault"""

    def __init__(self, d, crash, step, kind, pipe):
        self.d, self.crash, self.step, self.kind, self.pipe = os.path.realpath(d), crash, step, kind, pipe
        self.events = self.steps = 0
        self.names, self.on = [], False

    def event(self, what):
        if not self.on:
            return
        if self.events == self.crash:
            self.report(None)
            os._exit(99)
        self.events += 1

    def report(self, status):
        os.write(self.pipe, json.dumps([self.events, self.names, status]).encode())

    def audit(self, name, args):
        if not self.on:
            return
        if name == "open":
            p = args[0]
            if not isinstance(p, (str, bytes)):
                return
            p = os.path.realpath(os.fsdecode(p))
            if p.startswith(self.d + "/") and not p.endswith((".pyc", "HybridSolver.py")) and "w" in str(args[1] or "") + ("w" if isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR) else ""):
                self.event("open " + p)
        elif name in ("os.remove", "os.mkdir", "os.rename", "os.rmdir", "os.truncate", "os.link", "os.symlink"):
            self.event(name)

    # ---- the steps
    def run(self, cmd, *a, check=False, cwd=None, shell=False, stdout=None, stderr=None, capture_output=False, text=False, timeout=None, env=None, universal_newlines=None, input=None, encoding=None, **k):
        if a or k:
            raise Unsupported("subprocess.run with %s %s" % (a, k))
        if isinstance(cmd, str):
            cmd = shlex.split(cmd)
        cmd = [os.fspath(x) for x in cmd]
        self.event("start")
        base = os.path.basename(cmd[0])
        cwd = os.path.join(os.getcwd(), cwd or ".")
        kind = "cmake" if base == "cmake" and "--build" not in cmd else "make" if base in ("make", "ninja", "cmake") else "solver" if base == "BranchAndBound1Tree" else "net" if base.startswith("python") else None
        if kind is None:
            raise Unsupported("a command the harness does not know: %s" % cmd)
        fault = self.kind if self.steps == self.step else None
        self.steps += 1
        self.names.append(kind)
        self.on = False
        try:
            rc = getattr(self, kind)(cmd, cwd, fault)
        finally:
            self.on = True
        self.event("end")
        if check and rc:
            raise SP.CalledProcessError(rc, cmd)
        e = "" if text or universal_newlines or encoding else b""
        return SP.CompletedProcess(cmd, rc, e if capture_output or stdout == SP.PIPE else None, e if capture_output or stderr == SP.PIPE else None)

    def plain(self, fault, what):
        if fault == "missing":
            raise FileNotFoundError(2, "No such file or directory", what)
        if fault and "interrupt" in fault:
            raise KeyboardInterrupt()
        return -9 if fault == "killed" else 1 if fault else 0

    @staticmethod
    def opt(cmd, cwd, name, default):
        for q, x in enumerate(cmd):
            if x == name:
                return os.path.join(cwd, cmd[q + 1])
            if x.startswith(name):
                return os.path.join(cwd, x[len(name):].lstrip("="))
        return os.path.join(cwd, default)

    def cmake(self, cmd, cwd, fault):
        if fault:
            return self.plain(fault, "cmake")
        b = self.opt(cmd, cwd, "-B", ".")
        os.makedirs(b, exist_ok=True)
        old = json.load(open(b + "/defs")) if os.path.exists(b + "/defs") else {}
        for q, x in enumerate(cmd):
            x = cmd[q + 1] if x == "-D" else x[2:] if x.startswith("-D") else ""
            if "=" in x:
                old[x.split("=")[0].split(":")[0]] = x.split("=", 1)[1]
        json.dump(old, open(b + "/defs", "w"))
        for f, t in (("Makefile", "# made by the stand-in for cmake\n"), ("CMakeCache.txt", "".join("%s:UNINITIALIZED=%s\n" % x for x in sorted(old.items())))):
            with open(b + "/" + f, "w") as h:
                h.write(t)
        return 0

    def make(self, cmd, cwd, fault):
        b = self.opt(cmd, cwd, "--build" if os.path.basename(cmd[0]) == "cmake" else "-C", ".")
        exe = b + "/BranchAndBound1Tree"
        if fault:
            if fault.startswith("gone") and os.path.lexists(exe):
                os.remove(exe)
            return self.plain(fault, "make")
        defs = json.load(open(b + "/defs"))
        if os.path.lexists(exe):
            os.remove(exe)
        os.symlink(BIN[int(defs["MAX_VERTEX_NUM"]), int(defs["HYBRID"]) != 0], exe)
        return 0

    def net(self, cmd, cwd, fault):
        if fault in ("fail", "missing", "interrupt"):
            return self.plain(fault, cmd[0])
        args = [x for x in cmd[1:] if not x.startswith("-")]
        out, n = os.path.join(cwd, args[1]), int(args[2])
        path = cwd + "/data/hyb_tsp/test_%d_nodes_temp.txt" % n
        if not os.path.exists(path):
            return 1
        c = [float(x) for x in open(path).read().split(" output")[0].split()]
        c = [(c[i], c[i + 1]) for i in range(0, len(c), 2)]
        t = ";".join("(%r, %r)" % p for p in c) + "\n"
        for i in range(n):
            t += "".join("(%r, %r);" % (((c[i][0] - c[j][0]) ** 2 + (c[i][1] - c[j][1]) ** 2) ** 0.5, 0.0 if i == j else ((i + j) % 5) / 4.0) for j in range(n)) + "\n"
        if fault:
            t = "" if fault == "empty" else t[:len(t) // 2]
        open(out, "w").write(t)
        return self.plain(fault, "python3")

    def solver(self, cmd, cwd, fault):
        if not os.path.exists(os.path.join(cwd, cmd[0])):
            raise FileNotFoundError(2, "No such file or directory", cmd[0])
        if fault in ("fail", "missing", "interrupt"):
            return self.plain(fault, cmd[0])
        un, SP.Popen = SP.Popen, REAL["Popen"]
        p = REAL["run"]([os.path.join(cwd, cmd[0])] + cmd[1:], cwd=cwd, stdout=SP.DEVNULL, stderr=SP.DEVNULL, timeout=50)
        SP.Popen = un
        if fault:
            f = os.path.join(cwd, cmd[2])
            t = open(f).read()
            L = t.split("\n")
            t = "" if fault == "empty" else t[:int(len(t) * 0.55)] if "half" in fault or fault == "killed" else "\n".join(L[:-3]) + "\n"
            open(f, "w").write(t)
            return self.plain(fault, cmd[0])
        return p.returncode


class Unsupported(AttributeError):
    pass


def drive(d, n, hy, r, crash=HUGE, step=HUGE, kind=None):
    """one run of the driver in a process of its own: events, steps and how it ended (None: the crash that was asked for)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.setsid()
        status = "unknown"
        try:
            signal.alarm(0)
            null = os.open("/dev/null", os.O_RDWR)
            os.dup2(null, 1); os.dup2(null, 2); os.dup2(null, 0)
            sys.stdout = open(1, "w", closefd=False); sys.stderr = open(2, "w", closefd=False)
            os.chdir(d + "/main")
            box = Box(d, crash, step, kind, wr)
            SP.run = box.run
            SP.call = lambda *a, **k: box.run(*a, **k).returncode
            SP.check_call = lambda *a, **k: box.run(*a, check=True, **k).returncode
            SP.check_output = lambda *a, **k: box.run(*a, check=True, capture_output=True, **k).stdout

            def un(*a, **k):
                raise Unsupported("another way to start processes")
            SP.Popen, os.system, os.popen = un, un, un
            fsync = os.fsync

            def synced(f):
                box.event("fsync")
                return fsync(f)
            os.fsync = synced
            sys.argv = ["HybridSolver.py", "--range_instances", r, "--num_nodes", str(n)] + (["--hybrid"] if hy else [])
            sys.path[0] = d + "/main"
            sys.addaudithook(box.audit)
            import runpy
            code = compile(open("HybridSolver.py").read(), "HybridSolver.py", "exec")
            box.on = True
            try:
                exec(code, {"__name__": "__main__", "__file__": "HybridSolver.py"})
                status = 0
            except SystemExit as e:
                status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except Unsupported as e:
                status = "unsupported: %s" % e
            except BaseException as e:
                status = "%s: %s" % (type(e).__name__, e)
            box.on = False
            sys.stdout.flush()
            box.report(status)
        except BaseException:
            os.write(wr, json.dumps([0, [], "harness: " + traceback.format_exc()]).encode())
        finally:
            os._exit(0)
    os.close(wr)
    data = b""
    try:
        while True:
            b = os.read(rd, 65536)
            if not b:
                break
            data += b
        os.close(rd)
        os.waitpid(pid, 0)
    except BaseException:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            os.kill(pid, signal.SIGKILL)
        raise
    count("executions")
    e, names, status = json.loads(data)
    if isinstance(status, str) and status.startswith("unsupported"):
        raise Unsupported(status)
    if isinstance(status, str) and status.startswith("harness"):
        raise RuntimeError(status)
    return e, names, status


def prepare(d, style):
    hyb = d + "/main/graph-convnet-tsp/data/hyb_tsp"
    os.makedirs(hyb, exist_ok=True)
    for n in {c[0] for c in CONFIGS}:
        open("%s/test_%d_nodes.txt" % (hyb, n), "w").write("\n".join(lines(n, style)) + "\n")


def clean(d):
    for p in (d + "/data", d + "/results", d + "/cmake-build", d + "/main/graph-convnet-tsp/data/hyb_tsp"):
        shutil.rmtree(p, ignore_errors=True)


def snapshot(d):
    out = {}
    for base, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(base, f)
            q = os.path.relpath(p, d)
            if not q.startswith("cmake-build") and "__pycache__" not in q:
                out[q] = open(p, "rb").read()
    return out


def restore(d, snap):
    clean(d)
    for q, t in snap.items():
        if q.startswith(("data/", "results/", "main/graph-convnet-tsp/data/hyb_tsp/")):
            os.makedirs(os.path.dirname(os.path.join(d, q)), exist_ok=True)
            open(os.path.join(d, q), "wb").write(t)


def norm(t):
    return re.sub(r"Time taken: [-0-9.e]+s", "Time taken: Ts", D.norm(t))


def results(n, hy):
    return "results/AdjacencyMatrix/tsp_%d_nodes_%s/tsp_result_%%d.txt" % (n, "hybrid" if hy else "classic")


def csvs(n):
    return "data/AdjacencyMatrix/tsp_%d_nodes/tsp_test_%%d.csv" % n


TRAILER = re.compile(r"(?s)\nNodes: \n(.*)\nTime taken: \S+s\n$")


def judge(text, old, right, what):
    """the text of a result file after a run that may have failed: untouched, right, or recognisably incomplete and of this instance"""
    if text is None or text == old:
        return "absent" if text is None else "untouched"
    t = norm(text.decode())
    if t == right:
        return "complete"
    m, w = TRAILER.search(t), TRAILER.search(right)
    body, wbody = (t[:m.start()] if m else t), right[:w.start()]
    if m and norm(m.group(0)) != norm(w.group(0)):
        fail("%s: the result file ends with the cities %s instead of %s" % (what, m.group(0), w.group(0)))
    # the trailer may have been cut off itself
    if not m and right.startswith(t[:t.rfind("\n") + 1]) and len(t) <= len(right) + 30:
        return "partial"
    whole = body[:body.rfind("\n") + 1]
    if wbody.startswith(whole) and len(whole) <= len(wbody):
        if m and whole.strip() == wbody.strip() and t != right:
            fail("%s: the result file is not the one of a run without faults:\n%s" % (what, t))
        return "partial"
    fail("%s: the result file holds a report that is not the one of its instance:\n%s\ninstead of\n%s" % (what, t[-3000:], right))


def check_after(d, before, a, status, faulty, R, what):
    """a: the configuration that was run"""
    n, hy, r = a
    want = D.expect_range(r)
    now = snapshot(d)
    seen = []
    for k in want:
        p = results(n, hy) % k
        old = before.get(p)
        c = judge(now.get(p), old, R[n, hy, k], "%s, instance %d" % (what, k))
        if not faulty and c != "complete":
            fail("%s: the result of instance %d is %s: %s" % (what, k, c, (now.get(p) or b"").decode()[-1500:]))
        seen.append(c)
    mine = {results(n, hy) % k for k in want} | {csvs(n) % k for k in want} | {"main/graph-convnet-tsp/data/hyb_tsp/test_%d_nodes_temp.txt" % n}
    for q in set(before) | set(now):
        if q not in mine and before.get(q) != now.get(q):
            fail("%s: %s was changed, which is none of the files of the run" % (what, q))
    if not faulty:
        if status != 0:
            fail("%s: the driver ends with %r" % (what, status))
        if hy and "main/graph-convnet-tsp/data/hyb_tsp/test_%d_nodes_temp.txt" % n in now:
            fail("%s: the temporary instance is left behind" % what)
    return seen


def faults(a):
    """all the faults of a run of this configuration"""
    e, names, _ = EVENTS[a]
    return [(k, HUGE, None) for k in range(e)] + [(HUGE, s, f) for s, nm in enumerate(names) for f in PARTS[nm]]


def describe(a, f):
    n, hy, r = a
    names = EVENTS[a][1]
    return "%d cities, %s, instances %s, %s" % (n, "hybrid" if hy else "classic", r, "no fault" if f is None else "the driver dies before its effect number %d" % (f[0] + 1) if f[0] != HUGE else "step %d (%s): %s" % (f[1] + 1, names[f[1]], f[2]))


def case(i, ctx):
    stale, seq = SPACE[i]
    d = ctx["d"]
    note("%s; %s; then without faults" % ("results of another data set are there" if stale else "clean tree", "; ".join(describe(a, f) for a, f in seq)))
    restore(d, OLD if stale else {})
    prepare(d, STYLE)
    tags = []
    for a, f in seq:
        n, hy, r = a
        before = snapshot(d)
        e, names, status = drive(d, n, hy, r, *(f or ()))
        count("transitions", e)
        what = describe(a, f)
        seen = check_after(d, before, a, status, f is not None, RIGHT, what)
        if f is not None and f[0] == HUGE:
            k = names[f[1]] if f[1] < len(names) else None
            if k in ("cmake", "make", "net") or (f[2] or "").endswith("interrupt"):
                if status == 0:
                    fail("%s: the driver ends with status 0" % what)
                if names[f[1] + 1:]:
                    fail("%s: the driver goes on with %s" % (what, names[f[1] + 1:]))
            if k == "net":
                # nothing is reported for the instance of which the network failed
                q = D.expect_range(r)[names[:f[1] + 1].count("net") - 1]
                if (snapshot(d).get(results(n, hy) % q)) != before.get(results(n, hy) % q):
                    fail("%s: a result is written for instance %d" % (what, q))
            if k == "solver":
                q = D.expect_range(r)[names[:f[1] + 1].count("solver") - 1]
                c = seen[D.expect_range(r).index(q)]
                if c == "complete":
                    fail("%s: instance %d, which the solver did not finish, has a complete result" % (what, q))
        tags.append((str(status)[:20], tuple(seen)))
    outcome(tags)
    if i % 211 == 5:
        sample("%s: %s" % (S.note, tags))


def setup(k):
    d = "%s/f%s" % (D.DIR, k)
    os.makedirs(d + "/main/graph-convnet-tsp")
    shutil.copy(D.SRC + "/main/HybridSolver.py", d + "/main/HybridSolver.py")
    shutil.copy(D.SRC + "/CMakeLists.txt", d + "/CMakeLists.txt")
    return {"d": d}


CONFIGS = [(4, True, "1-2"), (4, False, "1-2"), (4, True, "2-3"), (4, False, "3"), (5, True, "1"), (5, False, "1-3")]
EVENTS, RIGHT, OLD = {}, {}, {}

if __name__ == "__main__":
    try:
        import numpy  # noqa: F401  (before the driver needs it)
        import argparse, datetime, errno, pprint, runpy  # noqa: F401
        deep = argi("--deep")
        for n in {c[0] for c in CONFIGS}:
            for h in (False, True):
                BIN[n, h] = build_program("%s/bb%d%d" % (D.DIR, n, h), n, int(h))
        base = setup("base")["d"]
        total, SPACE = 0, []
        msg = None
        for st in (STYLE_OLD, STYLE):
            clean(base)
            prepare(base, st)
            for a in CONFIGS:
                EVENTS[a] = drive(base, *a)
                if EVENTS[a][2] != 0:
                    msg = "the driver ends with %r for %s" % (EVENTS[a][2], a)
            snap = snapshot(base)
            if st == STYLE_OLD:
                OLD.update({q: t for q, t in snap.items() if q.startswith(("data/", "results/"))})
            for n, h in {(a[0], a[1]) for a in CONFIGS}:
                for k in range(1, LINES + 1):
                    if results(n, h) % k in snap:
                        RIGHT[n, h, k] = norm(snap[results(n, h) % k].decode())
        if msg is None:
            last = [(a, None) for a in CONFIGS]
            for a in CONFIGS:
                for f in faults(a):
                    for stale in (0, 1):
                        for b in last:
                            if b[0][0] == a[0] or f[0] == HUGE or deep:
                                SPACE.append((stale, [(a, f), b]))
            if MODE == "pairs":
                SPACE = []
                for a in (CONFIGS if deep else CONFIGS[4:5] + CONFIGS[1:2]):
                    for f in faults(a):
                        for b in ([c for c in CONFIGS if c[0] == a[0] and c[1] == a[1]] if deep else [a]):
                            for g in faults(b):
                                SPACE.append((1, [(a, f), (b, g), (b, None)]))
        else:
            SPACE = [None]

        def failing(i, ctx):
            fail(msg)
        rc = run("driver with faults, %s" % ("one fault, then a clean run" if MODE == "single" else "two faults, then a clean run"), len(SPACE), failing if msg else case, setup)
    finally:
        shutil.rmtree(D.DIR, ignore_errors=True)
    sys.exit(rc)
