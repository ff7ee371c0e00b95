#!/usr/bin/env python3
"""Decides one property: builds the code of /repo's working tree, explores the finite spaces listed for the
property in checks/specs.py, replays what was found in a fresh process, and writes evidence/<id>.json.

  check.py P01            tier from VERIF_TIER (quick by default)
  check.py P01 --tier thorough
  check.py --replay FILE  runs again the case of a replay file
"""
import argparse, concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAIN = REPO + "/src/HybridSolver/main"
sys.path.insert(0, VERIF + "/checks")
import specs  # noqa: E402

PYVT = "/opt/veriftools/pyvenv/bin/python3"
WRAP = "-Wl," + ",".join("--wrap=" + f for f in ("clock", "time", "clock_gettime", "gettimeofday", "getrusage"))
FLAVOUR = {
    "plain": ["-O2"],
    "o3": ["-O3"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "msan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fno-sanitize-recover=all"],
}
ENV = dict(os.environ, GLIBC_TUNABLES="glibc.malloc.tcache_count=0", LC_ALL="C",
           ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=97",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=97", MSAN_OPTIONS="exitcode=97",
           PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


class BuildError(Exception):
    pass


def sources(root):
    out = []
    for d, _, fs in os.walk(root):
        if "graph-convnet-tsp" in d:
            continue
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".c") and f != "main.c"]
    return sorted(out)


class Builder:
    def __init__(self, work):
        self.work, self.done = work, {}

    def key(self, job):
        return (job["harness"], job.get("cap", 8), job.get("hybrid", 0), job.get("flavour", "plain"), job.get("prim", 1), tuple(job.get("defs", [])))

    def tree(self, prim):
        """the sources to compile; with the other spanning tree engine, a copy in which only that setting differs"""
        if prim:
            return MAIN
        dst = self.work + "/kruskal"
        if not os.path.exists(dst):
            shutil.copytree(MAIN, dst, ignore=shutil.ignore_patterns("graph-convnet-tsp", "__pycache__", "*.py"))
            for d, _, fs in os.walk(dst):
                for f in fs:
                    if f.endswith((".h", ".c")):
                        p = os.path.join(d, f)
                        s = open(p, errors="replace").read()
                        n = re.sub(r"^([ \t]*#[ \t]*define[ \t]+PRIM)[ \t]+\S+", r"\1 0", s, flags=re.M)
                        if n != s:
                            open(p, "w").write(n)
        return dst

    def build(self, key):
        harness, cap, hybrid, flavour, prim, defs = key
        tree = self.tree(prim)
        exe = "%s/bin-%s-%s-%s-%s-%s-%s" % (self.work, harness, cap, hybrid, flavour, prim, len(self.done))
        cmd = ["clang", "-std=gnu99", "-w", "-DMAX_VERTEX_NUM=%d" % cap, "-DHYBRID=%d" % hybrid, "-I" + tree, "-I" + VERIF + "/harness"]
        cmd += FLAVOUR[flavour] + list(defs) + ([] if prim else ["-DPRIM=0"])
        if harness == "e2e" or harness:
            cmd += [VERIF + "/harness/%s.c" % harness, VERIF + "/harness/common.c", VERIF + "/harness/vclock.c"]
        cmd += sources(tree) + [WRAP + (",--wrap=add_elem_SubProblemList_bottom" if harness in ("sub", "steps") else ""), "-o", exe, "-lm", "-lpthread"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        return exe

    def build_all(self, jobs):
        keys = []
        for j in jobs:
            if j.get("kind", "c") == "c" and self.key(j) not in keys:
                keys.append(self.key(j))
        for k in keys:
            if k[4] == 0:
                self.tree(0)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = {}
            for i, k in enumerate(keys):
                self.done[k] = None
                futs[k] = ex.submit(self.build_one, k, i)
            for k, f in futs.items():
                self.done[k] = f.result()

    def build_one(self, key, i):
        harness, cap, hybrid, flavour, prim, defs = key
        exe = self.build(key)
        dst = "%s/exe%d" % (self.work, i)
        os.rename(exe, dst)
        return dst


def command(job, builder, work):
    if job.get("kind", "c") == "c":
        return [builder.done[builder.key(job)]] + [a.replace("@WORK@", work) for a in job["args"]]
    return [PYVT if job.get("py", "vt") == "vt" else sys.executable, "-B", VERIF + "/harness/" + job["script"]] + \
           [a.replace("@WORK@", work) for a in job["args"]]


def run(cmd, work, timeout):
    """one harness process; returns its JSON object, or None and what it wrote"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=work, env=dict(ENV, VERIF_WORK=work), start_new_session=True, text=True, errors="replace")
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, "no result within %d s\n%s" % (timeout, err[-3000:])
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    lines = [x for x in out.splitlines() if x.startswith('{"family"')]
    if not lines:
        return None, "exit status %s\n%s\n%s" % (p.returncode, out[-2000:], err[-3000:])
    return json.loads(lines[-1]), err[-6000:]


def known_findings():
    out = {}
    p = VERIF + "/known_findings.txt"
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out


def replay_args(job, f, shards):
    """how to run the case of a finding alone, and with the cases that ran before it in the same process"""
    alone = ["--only", str(f["case"])]
    with_past = ["--shards", str(shards), "--shard", "%d:%d" % (f.get("worker", 0), f["case"])]
    return [alone, with_past]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--job", type=int)
    o = ap.parse_args()
    if o.list:
        for k in sorted(specs.SPECS):
            print(k, len(specs.jobs(k, "quick")), len(specs.jobs(k, "thorough")))
        return 0
    os.makedirs(VERIF + "/.build", exist_ok=True)
    work = tempfile.mkdtemp(prefix="w", dir=VERIF + "/.build")
    try:
        if o.replay:
            return replay(o.replay, work)
        return check(o.property, "thorough" if o.tier == "thorough" else "quick", work, o)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path, work):
    r = json.load(open(path))
    b = Builder(work)
    b.build_all([r["job"]])
    res, err = run(command(r["job"], b, work) + r["args"], work, 900)
    print(json.dumps(res, indent=1), err)
    return 1 if res is None or res["findings"] else 0


def check(pid, tier, work, o):
    t0 = time.time()
    spec = specs.SPECS[pid]
    jobs = specs.jobs(pid, tier)
    if o.job is not None:
        jobs = [jobs[o.job]]
    b = Builder(work)
    try:
        b.build_all(jobs)
    except BuildError as e:
        print("the code does not build with the harness of %s:\n%s" % (pid, e))
        return 2
    tb = time.time() - t0
    total_limit = specs.LIMIT[tier]
    kf = known_findings()
    violations, notes, parts, known_seen, errors = [], [], [], {}, []
    shards = 8
    for ji, job in enumerate(jobs):
        left = total_limit - (time.time() - t0)
        if left < 5:
            notes.append("job %d (%s) was not started: time limit of the check" % (ji, job["args"]))
            parts.append({"job": job.get("what", " ".join(job["args"])), "total": None, "done": 0})
            continue
        dl = min(left, job.get("deadline", 1e9))
        js = time.time()
        cmd = command(job, b, work) + ["--shards", str(shards), "--deadline", "%.1f" % dl]
        res, err = run(cmd, work, dl + 150)
        if res is None:
            errors.append("job %d: %s" % (ji, err))
            continue
        c = res["counters"]
        part = {"family": res["family"], "capacity": job.get("cap"), "mode": "hybrid" if job.get("hybrid") else "classic" if "hybrid" in job else None,
                "flavour": job.get("flavour", "plain") if job.get("kind", "c") == "c" else None,
                "engine": "kruskal" if job.get("prim", 1) == 0 else None,
                "cases": res["total"], "cases_done": res["done"], "distinct_outcomes": res["distinct_outcomes"],
                "counters": {k: v for k, v in c.items() if v}, "wall_s": round(time.time() - js, 2), "samples": res["samples"][:2]}
        parts.append({k: v for k, v in part.items() if v is not None})
        if o.verbose:
            print("job", ji, json.dumps(parts[-1])[:1500], flush=True)
        for k in res["known"]:
            if (pid, k["key"]) in kf:
                known_seen[k["key"]] = known_seen.get(k["key"], 0) + k["count"]
            else:
                res["findings"].append({"kind": "violation", "case": k["case"], "worker": k.get("worker", 0), "message": "%s: %s" % (k["key"], k["message"])})
        nrep = 0
        for f in sorted(res["findings"], key=lambda f: f["case"]):
            if nrep >= 3 or any(v[1]["kind"] == "hang" for v in violations):
                break           # hangs take long to confirm, one is enough
            nrep += 1
            confirmed, how, rmsg = False, None, ""
            slow = ["--case-seconds", "120"] if f["kind"] == "hang" else []
            for args in replay_args(job, f, shards):
                r2, e2 = run(command(job, b, work) + args + slow, work, 300)
                bad = r2 is None or r2["findings"] or any((pid, k["key"]) not in kf for k in r2["known"])
                if bad:
                    confirmed, how = True, args
                    rmsg = e2
                    break
            if confirmed:
                violations.append((job, f, how, rmsg))
            else:
                notes.append("not reproduced in a fresh process, not reported: %s case %s: %s" % (res["family"], f["case"], f["message"][:400]))
        if len(violations) >= 3 or any(v[1]["kind"] == "hang" for v in violations):
            break
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    rc = 0
    for n, (job, f, how, rmsg) in enumerate(violations):
        path = "%s/evidence/replay-%s-%d.json" % (VERIF, pid, n)
        json.dump({"property": pid, "job": job, "args": how, "kind": f["kind"], "case": f["case"], "message": f["message"],
                   "details": rmsg, "rerun": "python3 %s/check.py --replay %s" % (VERIF, path)}, open(path, "w"), indent=1)
        print("%s: %s" % (f["kind"], f["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    for (p, key), what in kf.items():
        if p == pid and key in known_seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for n in notes:
        print("note:", n)
    for e in errors:
        print("error:", e)
    write_evidence(pid, tier, spec, parts, notes, violations, time.time() - t0, tb)
    if rc == 0 and errors:
        return 2
    if rc == 0:
        print("%s: held on everything explored (%d cases, %.1f s)" % (pid, sum(p.get("cases_done", 0) for p in parts), time.time() - t0))
    return rc


def write_evidence(pid, tier, spec, parts, notes, violations, wall, tbuild):
    def tot(name):
        return sum(p.get("counters", {}).get(name, 0) for p in parts)
    cases = sum(p.get("cases_done", 0) for p in parts)
    distinct = sum(p.get("distinct_outcomes", 0) for p in parts)
    capped = tot("runs_stopped_by_the_poll_budget")
    exhaustive = all(p.get("cases_done") == p.get("cases") and p.get("cases") is not None for p in parts) and not notes and bool(parts) and not capped
    samples = [s for p in parts for s in p.get("samples", [])][:12] or ["none"]
    expl = spec["explanation"]
    if capped:
        expl += " %d runs were stopped by the poll budget before they ended; they count as interrupted runs and nothing is concluded about optimality from them." % capped
    cov = {"samples": samples, "explanation": expl, "exhaustive": exhaustive, "jobs": parts, "build_s": round(tbuild, 2)}
    if spec["level"] == "model_checking":
        cov.update(states=tot("states") or distinct, transitions=tot("transitions"), traces_validated_against_impl=tot("executions") or cases)
    else:
        cov.update(evaluations=tot("executions") or cases, distinct_nontrivial=distinct, rule=spec["rule"])
    if notes:
        cov["notes"] = notes
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED") or 1), "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(violations)}
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
