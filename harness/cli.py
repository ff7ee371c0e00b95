"""P23: the real program, main.c included, started with every kind of arguments and with every failure of its output."""
import concurrent.futures, itertools, resource
from pylib import *

CAP, HY = argi("--cap", 5), argi("--hybrid", 0)
MODE = arg("--mode", "args")
DIR = tempfile.mkdtemp(prefix="cli", dir=WORK)


def build_shim(out, cap, hybrid):
    return build_program(out, cap, hybrid, [VERIF + "/harness/shim.c", "-Wl,--wrap=freopen,--wrap=fileno"])


def csv(n, w, p=None):
    s = ";".join("(%d, %d)" % (i, 3 * i) for i in range(n)) + "\n"
    for i in range(n):
        s += "".join("(%.6f, %s);" % (0 if i == j else w(min(i, j), max(i, j)), 0 if i == j or not p else p(min(i, j), max(i, j))) for j in range(n)) + "\n"
    return s


def good():
    out = []
    for n in range(3, CAP + 1):
        out.append(csv(n, lambda i, j: 1 + (3 * i + 5 * j) % 7))
        out.append(csv(n, lambda i, j: 1.25 * (1 + (i * i + 2 * j) % 5), lambda i, j: ((i + 3 * j) % 4) / 4))
        out.append(csv(n, lambda i, j: 0 if n > 3 and (i + j) % n == 2 else 30000 + 17 * ((i * j) % 5)))
    n = CAP
    out.append(csv(n, lambda i, j: 0 if i == 0 and j > 1 else 2 + j))      # a city with one neighbour: there is no tour
    out.append(csv(n, lambda i, j: 1 if j == i + 1 or (i == 0 and j == n - 1) else 0))
    return out


def bad():
    g = csv(3, lambda i, j: 1 + i + j)
    rows = g.split("\n")
    big = csv(CAP + 1, lambda i, j: 1 + i + j)
    return [("an empty file", ""), ("a blank line", "\n"), ("no pairs", "hello\n"), ("a malformed entry", g.replace("(1", "1", 1) if False else rows[0] + "\n" + rows[1].replace("(", "<", 2) + "\n" + "\n".join(rows[2:])),
            ("an incomplete row", "\n".join([rows[0], rows[1], rows[2].rsplit("(", 1)[0]] + rows[3:])), ("too many rows", g + rows[1] + "\n"), ("a row that is too long", "\n".join([rows[0], rows[1] + "(1, 0);"] + rows[2:])),
            ("too many cities", big), ("a malformed city", "(0 0);(1, 1);(2, x)\n" + "\n".join(rows[1:]))]


def norm(t):
    t = re.sub(r"(at time: |elapsed time = |time to obtain = )-?[0-9.]+", r"\1T", t)
    return t


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return None


def start(exe, args, cwd, limit=None, env=None, closed=(), timeout=50, **kw):
    def pre():
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        for fd in closed:
            os.close(fd)
    p = subprocess.Popen([exe] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=kw.get("stdout", subprocess.DEVNULL), stderr=subprocess.DEVNULL, preexec_fn=pre, restore_signals=False,
                         env=dict(os.environ, **(env or {})), start_new_session=True)
    try:
        return p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.wait()
        fail("the program does not end: %s" % args)


def prepare():
    global EXE, SHIM, INPUT, REF
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        f = [ex.submit(b, DIR + n, CAP, HY) for b, n in ((build_program, "/prog"), (build_shim, "/shim"), (build_emit, "/emit"))]
        EXE, SHIM, em = [x.result() for x in f]
    INPUT = []
    for k, t in enumerate(good()):
        p = "%s/in%d.csv" % (DIR, k)
        open(p, "w").write(t)
        INPUT.append(p)
    open(DIR + "/list", "w").write("\n".join(INPUT) + "\n")
    os.makedirs(DIR + "/ref")
    subprocess.run([em, "--csvs", DIR + "/list", "--dir", DIR + "/ref"], check=True, stdout=subprocess.DEVNULL, timeout=100)
    REF = [norm(open("%s/ref/r%d.txt" % (DIR, k)).read()) for k in range(len(INPUT))]
    for r in REF:
        if "B-&-B tree" not in r or "Forbidden edges" not in r:
            raise SystemExit("unexpected report: " + r)


def setup(k):
    d = "%s/w%d" % (DIR, k)
    os.makedirs(d, exist_ok=True)
    return d


def complete(path, k):
    t = read(path)
    return t is not None and norm(t.decode("latin1")) == REF[k]


def verdict(code, path, k, what, must=None):
    """must: True the run has to succeed, False it has to fail, None: only the equivalence"""
    ok = complete(path, k)
    count("executions"); count("transitions")
    outcome((code, ok, what))
    if code == 0 and not ok:
        fail("%s: exit status 0, but the output is not the complete report of the input. Output: %r\nReport: %r" % (what, (read(path) or b"")[-1500:], REF[k][-1500:]))
    if must is True and code != 0:
        fail("%s: exit status %d although the report could be written" % (what, code))
    if must is False and code == 0:
        fail("%s: exit status 0" % what)
    if must is False and code < 0:
        fail("%s: ended by signal %d" % (what, -code))


# ---------------------------------------------------------------- arguments, inputs and outputs
def build_args():
    cases = []
    good_k = range(len(good()))
    for k in good_k:
        cases += [("ok", k, o) for o in ("new", "existing", "longer", "relative", "symlink", "spaces", "readonly-input", "same-dir")]
        cases += [("out", k, o) for o in ("directory", "missing-dir", "full", "empty-name", "long-name", "file-as-dir", "input-as-dir")]
        cases += [("closed", k, c) for c in itertools.chain.from_iterable(itertools.combinations((0, 1, 2), r) for r in range(4))]
        cases += [("stdout", k, c) for c in ("full", "pipe")]
    for n in (0, 1, 3, 4):
        cases += [("argc", k, n) for k in good_k]
    for b in range(len(bad())):
        cases += [("bad", 0, b), ("bad-existing", 0, b)]
    for o in ("nonexistent", "directory", "empty-name", "missing-dir", "dangling", "both"):
        cases.append(("in", 0, o))
    return cases


def case_args(i, d):
    kind, k, o = CASES[i]
    note("%s input %d %s" % (kind, k, o))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    src = INPUT[k]
    inp, out = d + "/input.csv", d + "/out.txt"
    shutil.copy(src, inp)
    before = read(inp)
    if kind == "ok":
        a, b = inp, out
        if o == "existing":
            open(out, "w").write("x\n")
        elif o == "longer":
            open(out, "w").write("old report\n" * 2000)
        elif o == "relative":
            a, b = "input.csv", "out.txt"
        elif o == "symlink":
            os.symlink(d + "/target.txt", out)
        elif o == "spaces":
            os.rename(inp, d + "/a file.csv"); inp = d + "/a file.csv"; out = d + "/the report.txt"; a, b = inp, out
        elif o == "readonly-input":
            os.chmod(inp, 0o444)
        elif o == "same-dir":
            a, b = "./input.csv", "./out.txt"
        c = start(EXE, [a, b], d)
        verdict(c, out, k, "%s: %s" % (kind, o), True)
    elif kind == "out":
        b = out
        if o == "directory":
            b = d
        elif o == "missing-dir":
            b = d + "/no/out.txt"
        elif o == "full":
            b = "/dev/full"
        elif o == "empty-name":
            b = ""
        elif o == "long-name":
            b = d + "/" + "a" * 300
        elif o == "file-as-dir":
            open(out, "w").write("x"); b = out + "/report.txt"
        elif o == "input-as-dir":
            b = inp + "/report.txt"
        c = start(EXE, [inp, b], d)
        verdict(c, d + "/none", k, "%s: output %s" % (kind, o), False)
    elif kind == "closed":
        c = start(EXE, [inp, out], d, closed=o)
        verdict(c, out, k, "%s: descriptors %s" % (kind, o), True)
    elif kind == "stdout":
        if o == "full":
            with open("/dev/full", "w") as f:
                c = start(EXE, [inp, out], d, stdout=f)
        else:
            r, w = os.pipe(); os.close(r)
            c = start(EXE, [inp, out], d, stdout=w); os.close(w)
        verdict(c, out, k, "%s: original standard output %s" % (kind, o), True)
    elif kind == "argc":
        c = start(EXE, [inp, out, "x", "y"][:o], d)
        verdict(c, d + "/none", k, "%s: %d arguments" % (kind, o), False)
        if os.path.exists(out) and o < 2:
            fail("a file appeared without being named: %d arguments" % o)
    elif kind in ("bad", "bad-existing"):
        what, text = bad()[o]
        open(inp, "w").write(text); before = read(inp)
        if kind == "bad-existing":
            open(out, "w").write(REF[k])
        c = start(EXE, [inp, out], d)
        verdict(c, d + "/none", k, "%s: %s" % (kind, what), False)
    elif kind == "in":
        a = {"nonexistent": d + "/none.csv", "directory": d, "empty-name": "", "missing-dir": d + "/no/in.csv", "dangling": d + "/link", "both": d + "/none.csv"}[o]
        if o == "dangling":
            os.symlink(d + "/nowhere", a)
        c = start(EXE, [a, d + "/no/out.txt" if o == "both" else out], d)
        verdict(c, d + "/none", k, "%s: %s" % (kind, o), False)
    if read(inp) != before:
        fail("%s %s: the input file was modified" % (kind, o))
    if i % 61 == 3:
        sample("%s, input %d, %s: exit status %d" % (kind, k, o, c))


# ---------------------------------------------------------------- the disk is full after every byte
def build_full():
    cases = []
    for k in range(len(INPUT)):
        cases += [(k, lim) for lim in range(len(REF[k]) + 60)]
    return cases


def case_full(i, d):
    k, lim = CASES[i]
    note("input %d, the output takes %d bytes" % (k, lim))
    inp, out = INPUT[k], d + "/out.txt"
    before = read(inp)
    if os.path.exists(out):
        os.remove(out)
    for buf in (None, "64"):
        c = start(EXE if buf is None else SHIM, [inp, out], d, limit=lim, env={"VSHIM_BUF": buf} if buf else None)
        verdict(c, out, k, "write limit: %d bytes, buffer %s, input %d" % (lim, buf or "default", k), True if lim >= len(REF[k]) + 50 else False if lim < len(REF[k]) - 40 else None)
    if read(inp) != before:
        fail("the input file was modified")
    if i % 997 == 5:
        sample("input %d, output limited to %d bytes of about %d: exit status %d" % (k, lim, len(REF[k]), c))


# ---------------------------------------------------------------- writes that fail once or for good
def build_writes():
    """every single write, every pair of writes, every suffix of the writes refused; every write taken by half"""
    cases = []
    d = DIR + "/count"
    os.makedirs(d, exist_ok=True)
    for k in range(len(INPUT)):
        for buf in (4096, 512, 128, 48):
            start(SHIM, [INPUT[k], d + "/o"], d, env={"VSHIM_BUF": str(buf), "VSHIM_FAIL": "999999", "VSHIM_CALLS": d + "/n"})
            n = int(read(d + "/n") or 0)
            if n == 0:
                continue
            one = list(range(1, n + 1))
            pats = [("%d" % a, False) for a in one] + [("%d+" % a, False) for a in one] + [("h%d" % a, None) for a in one]
            if n <= 30:
                pats += [("%d,%d" % (a, b), False) for a in one for b in one if a < b]
            cases += [(k, buf, f, must, "") for f, must in pats] + [(k, buf, "999999", False, "1")]
    return cases


def case_writes(i, d):
    k, buf, f, must, close = CASES[i]
    note("input %d, buffer %d, writes refused: %s%s" % (k, buf, f, ", failing close" if close else ""))
    out = d + "/out.txt"
    if os.path.exists(out):
        os.remove(out)
    env = {"VSHIM_BUF": str(buf), "VSHIM_FAIL": f}
    if close:
        env["VSHIM_CLOSE"] = "1"
    c = start(SHIM, [INPUT[k], out], d, env=env)
    # timings have a different length on every run, so a write may not happen: then only the equivalence is decided
    verdict(c, out, k, "failing writes: %s, buffer %d, input %d" % (f, buf, k), False if close else None)
    if i % 331 == 3:
        sample("input %d, buffer %d, writes refused %s: exit status %d" % (k, buf, f, c))


if __name__ == "__main__":
    try:
        prepare()
        CASES = {"args": build_args, "full": build_full, "writes": build_writes}[MODE]()
        what = {"args": "every number of arguments, every kind of input and output path, every set of closed descriptors",
                "full": "the output takes no more than k bytes, for every k", "writes": "every write, pair and suffix of the writes of the report refused, for four buffer sizes"}[MODE]
        rc = run("program with capacity %d, %s mode: %s" % (CAP, "hybrid" if HY else "classic", what), len(CASES), {"args": case_args, "full": case_full, "writes": case_writes}[MODE], setup)
    finally:
        shutil.rmtree(DIR, ignore_errors=True)
    sys.exit(rc)
