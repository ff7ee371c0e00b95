"""Driver of the harnesses written in Python: the same protocol as harness/common.c.

A harness defines a finite space of cases 0..total-1 and a function that runs one of them; the cases are split over
forked workers and every finding names its case."""
import hashlib, json, os, signal, sys, time, traceback

ARGV = sys.argv


def arg(name, default=None):
    for i in range(1, len(ARGV) - 1):
        if ARGV[i] == name:
            return ARGV[i + 1]
    return default


def argi(name, default=0):
    return int(arg(name, default))


class Fail(Exception):
    pass


def fail(*a):
    raise Fail(" ".join(str(x) for x in a))


class State:
    counters, outcomes, samples, known, note = {}, set(), [], {}, ""


S = State()


def count(name, d=1):
    S.counters[name] = S.counters.get(name, 0) + d


def outcome(x):
    S.outcomes.add(hashlib.md5(repr(x).encode()).hexdigest()[:16])


def sample(x):
    if len(S.samples) < 6:
        S.samples.append(str(x)[:1100])


def known(key, msg):
    k = S.known.setdefault(key, [0, None, msg])
    k[0] += 1


def note(msg):
    S.note = msg


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", "/tmp")


def run(family, total, fn, setup=None, teardown=None):
    out = os.dup(1)
    shards = min(argi("--shards", 8), 64)
    secs = argi("--case-seconds", 60)
    deadline = float(arg("--deadline", 0))
    limit = argi("--limit", 0)
    if limit:
        total = min(total, limit)
    only, one = arg("--only"), arg("--shard")
    t0 = time.monotonic()
    if only is not None:
        plan = [(int(only), int(only) + 1, 1)]
    elif one is not None:
        k, upto = one.split(":")
        plan = [(int(k), int(upto) + 1, shards)]
    else:
        plan = [(k, total, shards) for k in range(shards)]
    procs = []
    for k, (lo, hi, st) in enumerate(plan):
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            null = os.open("/dev/null", os.O_WRONLY)
            os.dup2(null, 1)
            res = {"finding": None, "done": 0}
            signal.signal(signal.SIGALRM, _alarm)
            i = lo
            ctx = None
            try:
                ctx = setup(k) if setup else None
                for i in range(lo, hi, st):
                    if deadline and time.monotonic() - t0 > deadline:
                        break
                    S.note = ""
                    signal.alarm(secs)
                    try:
                        fn(i, ctx) if setup else fn(i)
                    except AttributeError as e:
                        if type(e).__name__ != "Unsupported":
                            raise
                        # the code uses an operation that the stand-ins do not know: nothing can be said about this case
                        count("cases_not_judged_for_lack_of_an_operation_in_the_stand_in")
                        sample("not judged: %s (%s)" % (e, S.note))
                    signal.alarm(0)
                    res["done"] += 1
                    if not S.samples and S.note and res["done"] > 5:
                        sample(S.note)
            except Fail as e:
                res["finding"] = ("violation", i, str(e)[:6000])
            except Timeout:
                res["finding"] = ("hang", i, "case did not end within %d s: %s" % (secs, S.note))
            except BaseException:
                res["finding"] = ("crash", i, (S.note + "\n" + traceback.format_exc())[-6000:])
            signal.alarm(0)
            try:
                if teardown:
                    teardown(ctx)
            except Exception:
                pass
            res.update(counters=S.counters, outcomes=sorted(S.outcomes), samples=S.samples, known=S.known)
            data = json.dumps(res).encode()
            while data:
                data = data[os.write(w, data):]
            os._exit(0)
        os.close(w)
        procs.append((pid, r))
    tot = {"family": family, "total": total, "max_vertex": 0, "hybrid": 0, "findings": [], "known": [], "done": 0, "distinct_outcomes": 0, "counters": {}, "samples": []}
    outs = set()
    for k, (pid, r) in enumerate(procs):
        data = b""
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        _, st = os.waitpid(pid, 0)
        if not data:
            tot["findings"].append({"kind": "crash", "case": plan[k][0], "worker": k, "signal": 0, "message": "worker ended with status %d" % st})
            continue
        res = json.loads(data)
        if res["finding"]:
            kind, i, msg = res["finding"]
            tot["findings"].append({"kind": kind, "case": i, "worker": k, "signal": 0, "message": msg})
        for key, (n, c, msg) in res["known"].items():
            tot["known"].append({"key": key, "count": n, "case": c or 0, "message": msg})
        tot["done"] += res["done"]
        outs.update(res["outcomes"])
        for name, v in res["counters"].items():
            tot["counters"][name] = max(tot["counters"].get(name, 0), v) if name.startswith("max_") else tot["counters"].get(name, 0) + v
        tot["samples"] += res["samples"][:2]
    tot["samples"] = tot["samples"][:8]
    tot["distinct_outcomes"] = len(outs)
    os.write(out, (json.dumps(tot) + "\n").encode())
    return 1 if tot["findings"] else 0


# ---------------------------------------------------------------- building the C code from the working tree
import re, shutil, subprocess, tempfile  # noqa: E402
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAIN = REPO + "/src/HybridSolver/main"
WRAP = "-Wl," + ",".join("--wrap=" + f for f in ("clock", "time", "clock_gettime", "gettimeofday", "getrusage"))


def c_sources(with_main):
    out = []
    for d, _, fs in os.walk(MAIN):
        if "graph-convnet-tsp" not in d:
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".c") and (with_main or f != "main.c")]
    return sorted(out)


def build_program(out, cap, hybrid, extra=()):
    """the real program, main.c included"""
    test = MAIN + "/../test"
    cmd = ["clang", "-std=gnu99", "-w", "-O2", "-DMAX_VERTEX_NUM=%d" % cap, "-DHYBRID=%d" % hybrid, *extra] + c_sources(True)
    cmd += [os.path.join(test, f) for f in sorted(os.listdir(test)) if f.endswith(".c")] + ["-o", out, "-lm", "-lpthread"]
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL)
    return out


def build_emit(out, cap, hybrid):
    h = VERIF + "/harness/"
    subprocess.run(["clang", "-std=gnu99", "-w", "-O2", "-DMAX_VERTEX_NUM=%d" % cap, "-DHYBRID=%d" % hybrid, "-I" + MAIN, "-I" + h, h + "emit.c", h + "common.c", h + "vclock.c"]
                   + c_sources(False) + [WRAP, "-o", out, "-lm", "-lpthread"], check=True, stdout=subprocess.DEVNULL)
    return out


def emit(exe, d, family, lo, hi, prob="zero", jumps="0", step=1, **kw):
    os.makedirs(d, exist_ok=True)
    cmd = [exe, "--family", family, "--prob", prob, "--dir", d, "--lo", str(lo), "--hi", str(hi), "--jumps", jumps, "--step", str(step)]
    for k, v in kw.items():
        cmd += ["--" + k.replace("_", "-"), str(v)]
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, timeout=300)
    return [json.loads(x) for x in open(d + "/truth.jsonl")]


def load(path, stubs=None, name=None):
    """imports a Python file of the working tree with stand-ins for the modules that are not installed"""
    import importlib.util
    sys.dont_write_bytecode = True
    for k, v in (stubs or {}).items():
        sys.modules[k] = v
    spec = importlib.util.spec_from_file_location(name or os.path.basename(path)[:-3], path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m
